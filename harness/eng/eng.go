//go:build go1.22

// Package eng is a small property-based testing engine: seeded structured
// generation, deterministic replay, delta-debugging shrinker, class counters.
//
// A case is a JSON value (a list of operations), so a failing case can be
// written out, shrunk and replayed without the generator.
package eng

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"
)

// S is a byte string that survives JSON whatever bytes it holds.
type S string

// MarshalJSON keeps valid UTF-8 readable and quotes everything else.
func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) && !strings.HasPrefix(string(s), "\x00q:") {
		return json.Marshal(string(s))
	}
	return json.Marshal("\x00q:" + strconv.QuoteToASCII(string(s)))
}

// UnmarshalJSON is the inverse of MarshalJSON.
func (s *S) UnmarshalJSON(b []byte) error {
	var t string
	if err := json.Unmarshal(b, &t); err != nil {
		return err
	}
	if strings.HasPrefix(t, "\x00q:") {
		u, err := strconv.Unquote(t[3:])
		if err != nil {
			return err
		}
		t = u
	}
	*s = S(t)
	return nil
}

// Op is one generated operation.
type Op struct {
	K   string  `json:"k"`
	S   []S     `json:"s,omitempty"`
	N   []int64 `json:"n,omitempty"`
	Sub []Op    `json:"sub,omitempty"`
}

// Str returns string argument i, or "".
func (o Op) Str(i int) string {
	if i < len(o.S) {
		return string(o.S[i])
	}
	return ""
}

// Int returns integer argument i, or 0.
func (o Op) Int(i int) int64 {
	if i < len(o.N) {
		return o.N[i]
	}
	return 0
}

// O builds an Op.
func O(k string, s ...string) Op {
	o := Op{K: k}
	for _, x := range s {
		o.S = append(o.S, S(x))
	}
	return o
}

// WithN adds integer arguments.
func (o Op) WithN(n ...int64) Op { o.N = append(append([]int64{}, o.N...), n...); return o }

// Case is one generated test case.
type Case struct {
	Cfg map[string]string `json:"cfg,omitempty"`
	Ops []Op              `json:"ops"`
}

// R is the generator's source of randomness.
type R struct{ *rand.Rand }

// Pick chooses one of the strings.
func (r R) Pick(xs ...string) string { return xs[r.Intn(len(xs))] }

// Chance is true num times out of den.
func (r R) Chance(num, den int) bool { return r.Intn(den) < num }

// Weighted picks a key by weight; the order of the arguments matters.
func (r R) Weighted(kv ...interface{}) string {
	tot := 0
	for i := 1; i < len(kv); i += 2 {
		tot += kv[i].(int)
	}
	n := r.Intn(tot)
	for i := 0; i < len(kv); i += 2 {
		n -= kv[i+1].(int)
		if n < 0 {
			return kv[i].(string)
		}
	}
	return kv[0].(string)
}

// Violation is a property failure.
type Violation struct{ Aspect, Msg string }

func (v *Violation) Error() string { return v.Aspect + ": " + v.Msg }

type foreign struct{ why string }

// T is handed to a suite's Run.
type T struct {
	Scope   []string // aspect prefixes which count for this suite; nil: everything
	classes map[string]int
	nontriv bool
	trace   []string
	Verbose bool
	known   map[string]bool
	cleanup []func()
}

// Class counts a case class.
func (t *T) Class(c string) { t.classes[c]++ }

// NonTrivial marks the case as non-trivial by the suite's rule.
func (t *T) NonTrivial() { t.nontriv = true }

// Cleanup registers a function to run when the case ends.
func (t *T) Cleanup(f func()) { t.cleanup = append(t.cleanup, f) }

// Known reports that a listed known finding showed up.
func (t *T) Known(id string) { t.known[id] = true }

// Tracef records a step for the violation report.
func (t *T) Tracef(f string, a ...interface{}) {
	t.trace = append(t.trace, fmt.Sprintf(f, a...))
	if len(t.trace) > 400 {
		t.trace = t.trace[len(t.trace)-400:]
	}
}

// Failf reports a violation with an aspect tag.  If the aspect is not in
// the suite's scope, the case is abandoned (it says nothing about this
// property) and counted as such.
func (t *T) Failf(aspect, f string, a ...interface{}) {
	if t.Scope != nil {
		ok := false
		for _, s := range t.Scope {
			if strings.HasPrefix(aspect, s) {
				ok = true
			}
		}
		if !ok {
			panic(foreign{aspect + ": " + fmt.Sprintf(f, a...)})
		}
	}
	panic(&Violation{aspect, fmt.Sprintf(f, a...)})
}

// InScope says whether an aspect counts for this suite.
func (t *T) InScope(aspect string) bool {
	if t.Scope == nil {
		return true
	}
	for _, s := range t.Scope {
		if strings.HasPrefix(aspect, s) {
			return true
		}
	}
	return false
}

// Abandon gives up on a case that turned out not to be about this property.
func (t *T) Abandon(f string, a ...interface{}) { panic(foreign{fmt.Sprintf(f, a...)}) }

// Suite is one generated check.
type Suite struct {
	Prop, Name  string
	Rule        string
	Scope       []string
	Quick, Deep int // cases per tier (over all shards)
	Gen         func(r R) *Case
	Run         func(t *T, c *Case)
	Enum        func(tier string) []*Case // optional: exhaustive list run before the random cases
	NoShrink    bool
	Retries     int  // attempts for a replay of a schedule-dependent case (default 1)
	Sched       bool // the outcome depends on the schedule: a failure stands even if a replay does not hit it
	MaxSeconds  int  // per-case watchdog (default 40)
}

var suites []*Suite

// Register adds a suite.
func Register(s *Suite) {
	if s.Retries == 0 {
		s.Retries = 1
	}
	if s.MaxSeconds == 0 {
		s.MaxSeconds = 40
	}
	suites = append(suites, s)
}

// Suites lists the suites of a property ("" for all).
func Suites(prop string) []*Suite {
	var out []*Suite
	for _, s := range suites {
		if prop == "" || s.Prop == prop {
			out = append(out, s)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// Replay is the format of replay files.
type Replay struct {
	Property string   `json:"property"`
	Suite    string   `json:"suite"`
	Seed     int64    `json:"seed"`
	Index    int      `json:"index"`
	Aspect   string   `json:"aspect"`
	Message  string   `json:"message"`
	Sched    bool     `json:"schedule_dependent,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Case     *Case    `json:"case"`
	Unshrunk *Case    `json:"unshrunk,omitempty"`
}

// Result is what a worker writes.
type Result struct {
	Property    string                    `json:"property"`
	Evaluations int                       `json:"evaluations"`
	Nontrivial  []string                  `json:"nontrivial"` // hashes
	PerSuite    map[string]map[string]int `json:"per_suite"`
	Rules       map[string]string         `json:"rules"`
	Samples     []json.RawMessage         `json:"samples"`
	Foreign     map[string]int            `json:"foreign"`
	Known       []string                  `json:"known"`
	Violation   *Replay                   `json:"violation,omitempty"`
	Done        bool                      `json:"done"`
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func caseSeed(seed int64, suite string, idx int) int64 {
	x := hash64(strconv.FormatInt(seed, 10), suite, strconv.Itoa(idx))
	// splitmix finaliser
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	x ^= x >> 31
	return int64(x & 0x7fffffffffffffff)
}

var (
	curStart int64 // unix nano of the running case, 0 if none
	curLimit int64
	dogOnce  sync.Once
)

// HangExit is the exit status of a worker whose case did not end in time.
const HangExit = 97

func watchdog() {
	dogOnce.Do(func() {
		go func() {
			for {
				time.Sleep(200 * time.Millisecond)
				st := atomic.LoadInt64(&curStart)
				if st != 0 && time.Now().UnixNano()-st > atomic.LoadInt64(&curLimit) {
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					fmt.Fprintf(os.Stderr, "HANG: case did not finish\n%s\n", buf[:n])
					os.Exit(HangExit)
				}
			}
		}()
	})
}

// blame names the function that panicked, if it is not the harness itself.
func blame(stack string) string {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		return ""
	}
	for _, l := range strings.Split(stack[i+1:], "\n")[1:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		if strings.Contains(l, "/zzv/") || !strings.Contains(stack[i:], "netauth/") {
			return ""
		}
		if k := strings.LastIndex(l, "("); k > 0 {
			l = l[:k]
		}
		return l
	}
	return ""
}

// RunOne runs a single case.
func RunOne(s *Suite, c *Case) (t *T, v *Violation, f string) {
	t = &T{Scope: s.Scope, classes: map[string]int{}, known: map[string]bool{}}
	watchdog()
	atomic.StoreInt64(&curLimit, int64(s.MaxSeconds)*int64(time.Second))
	atomic.StoreInt64(&curStart, time.Now().UnixNano())
	defer atomic.StoreInt64(&curStart, 0)
	defer func() {
		for i := len(t.cleanup) - 1; i >= 0; i-- {
			t.cleanup[i]()
		}
	}()
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case *Violation:
				v = y
			case foreign:
				f = y.why
			default:
				st := string(debug.Stack())
				if by := blame(st); by != "" {
					v = &Violation{"crash", fmt.Sprintf("the code panics in %s: %v", by, x)}
					return
				}
				panic(fmt.Sprintf("harness panic: %v\n%s", x, st))
			}
		}
	}()
	s.Run(t, c)
	return t, nil, ""
}

// ---- shrinking ----

type shrinker struct {
	s        *Suite
	seed     int64
	idx      int
	attempts int
	deadline time.Time
	journal  func(string, *Case)
	best     *Case
	bestV    *Violation
	bestT    *T
}

func clone(c *Case) *Case {
	b, _ := json.Marshal(c)
	var d Case
	if err := json.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	return &d
}

func (k *shrinker) try(c *Case) (ok bool) {
	if k.attempts <= 0 || time.Now().After(k.deadline) {
		return false
	}
	k.attempts--
	if k.journal != nil {
		k.journal(k.s.Name, c)
	}
	// A case mangled beyond what the harness understands fails nothing.
	defer func() {
		if x := recover(); x != nil {
			ok = false
		}
	}()
	for i := 0; i < k.s.Retries; i++ {
		t, v, _ := RunOne(k.s, clone(c))
		if v != nil && v.Aspect == k.bestV.Aspect {
			k.best, k.bestV, k.bestT = clone(c), v, t
			return true
		}
	}
	return false
}

func (k *shrinker) ops() {
	// delta debugging on the top-level operations
	for n := len(k.best.Ops) / 2; n >= 1; {
		progress := false
		for i := len(k.best.Ops) - n; i >= 0; i -= n {
			if i+n > len(k.best.Ops) {
				continue
			}
			c := clone(k.best)
			c.Ops = append(append([]Op{}, c.Ops[:i]...), c.Ops[i+n:]...)
			if k.try(c) {
				progress = true
			}
		}
		if n == 1 {
			if !progress {
				break
			}
			continue
		}
		n /= 2
	}
}

func (k *shrinker) args() {
	for i := 0; i < len(k.best.Ops); i++ {
		for j := len(k.best.Ops[i].Sub) - 1; j >= 0; j-- {
			c := clone(k.best)
			c.Ops[i].Sub = append(append([]Op{}, c.Ops[i].Sub[:j]...), c.Ops[i].Sub[j+1:]...)
			k.try(c)
		}
		for j := 0; j < len(k.best.Ops[i].S); j++ {
			cur := string(k.best.Ops[i].S[j])
			for _, w := range []string{"", "a", cur[:len(cur)/2], cur[len(cur)/2:]} {
				if len(w) >= len(cur) {
					continue
				}
				c := clone(k.best)
				c.Ops[i].S[j] = S(w)
				if k.try(c) {
					break
				}
			}
		}
		for j := 0; j < len(k.best.Ops[i].N); j++ {
			cur := k.best.Ops[i].N[j]
			for _, w := range []int64{0, 1, cur / 2, cur - 1} {
				if w == cur || (w < 0) != (cur < 0) && w != 0 || abs(w) >= abs(cur) {
					continue
				}
				c := clone(k.best)
				c.Ops[i].N[j] = w
				if k.try(c) {
					break
				}
			}
		}
	}
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// ---- worker ----

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Main runs the worker as told by the environment and returns the exit
// status: 0 no violation, 1 violation, 2 trouble.
func Main() int {
	debug.SetMaxStack(128 << 20)
	prop := env("VERIF_PROP", "")
	tier := env("VERIF_TIER", "quick")
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	out := env("VERIF_OUT", "")
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		return replay(rp)
	}
	var shard, shards = 0, 1
	fmt.Sscanf(env("VERIF_SHARD", "0/1"), "%d/%d", &shard, &shards)
	scale := 1.0
	if v := os.Getenv("VERIF_SCALE"); v != "" {
		scale, _ = strconv.ParseFloat(v, 64)
	}
	only := os.Getenv("VERIF_SUITE")

	var jf *os.File
	if j := os.Getenv("VERIF_JOURNAL"); j != "" {
		var err error
		if jf, err = os.OpenFile(j, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0600); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	journal := func(suite string, c *Case) {
		if jf == nil {
			return
		}
		b, _ := json.Marshal(Replay{Property: prop, Suite: suite, Seed: seed, Case: c})
		var hdr [16]byte
		copy(hdr[:], fmt.Sprintf("%015d\n", len(b)))
		jf.WriteAt(append(hdr[:], b...), 0)
	}

	res := &Result{Property: prop, PerSuite: map[string]map[string]int{}, Rules: map[string]string{}, Foreign: map[string]int{}}
	known := map[string]bool{}
	seen := map[uint64]bool{}
	status := 0
	list := Suites(prop)
	if len(list) == 0 {
		fmt.Fprintln(os.Stderr, "no suite for property", prop)
		return 2
	}
	write := func() {
		if out == "" {
			return
		}
		res.Nontrivial = res.Nontrivial[:0]
		for h := range seen {
			res.Nontrivial = append(res.Nontrivial, strconv.FormatUint(h, 36))
		}
		sort.Strings(res.Nontrivial)
		res.Known = nil
		for k := range known {
			res.Known = append(res.Known, k)
		}
		sort.Strings(res.Known)
		b, _ := json.Marshal(res)
		os.WriteFile(out, b, 0600)
	}

	for _, s := range list {
		if in := os.Getenv("VERIF_SUITES"); in != "" && !strings.Contains(" "+in+" ", " "+s.Name+" ") {
			continue
		}
		if only != "" && s.Name != only || only == "" && strings.HasPrefix(s.Name, "race-") {
			continue
		}
		st := map[string]int{}
		res.PerSuite[s.Name] = st
		res.Rules[s.Name] = s.Rule
		n := s.Quick
		if tier == "thorough" {
			n = s.Deep
		}
		n = int(float64(n)*scale + 0.5)
		var enum []*Case
		if s.Enum != nil {
			enum = s.Enum(tier)
		}
		samples := 0
		for i := -len(enum); i < n; i++ {
			if ((i%shards)+shards)%shards != shard {
				continue
			}
			var c *Case
			if i < 0 {
				c = enum[i+len(enum)]
			} else {
				c = s.Gen(R{rand.New(rand.NewSource(caseSeed(seed, s.Name, i)))})
			}
			c = clone(c)
			journal(s.Name, c)
			t, v, f := RunOne(s, c)
			res.Evaluations++
			st["cases"]++
			for k, cnt := range t.classes {
				st["class:"+k]++
				st["count:"+k] += cnt
			}
			for k := range t.known {
				known[k] = true
			}
			if f != "" {
				st["abandoned"]++
				if len(f) > 160 {
					f = f[:160]
				}
				if len(res.Foreign) < 40 || res.Foreign[f] > 0 {
					res.Foreign[f]++
				}
			}
			if t.nontriv && v == nil && f == "" {
				b, _ := json.Marshal(c)
				h := hash64(s.Name, string(b))
				if !seen[h] {
					seen[h] = true
					st["distinct_nontrivial"]++
					if samples < 1 && shard == 0 && i >= 0 {
						samples++
						sb, _ := json.Marshal(map[string]interface{}{"suite": s.Name, "index": i, "case": json.RawMessage(b)})
						if len(sb) < 6000 {
							res.Samples = append(res.Samples, sb)
						}
					}
				}
			}
			if v != nil {
				k := &shrinker{s: s, seed: seed, idx: i, attempts: 600, deadline: time.Now().Add(40 * time.Second), journal: journal, best: clone(c), bestV: v, bestT: t}
				if !s.NoShrink {
					for round := 0; round < 3; round++ {
						before := k.attempts
						k.ops()
						k.args()
						if k.attempts == before || k.attempts <= 0 {
							break
						}
					}
				}
				res.Violation = &Replay{Property: prop, Suite: s.Name, Seed: seed, Index: i, Aspect: k.bestV.Aspect, Message: k.bestV.Msg, Sched: s.Sched, Trace: k.bestT.trace, Case: k.best, Unshrunk: c}
				write()
				return 1
			}
		}
	}
	res.Done = true
	write()
	return status
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range Suites(r.Property) {
		if s.Name != r.Suite {
			continue
		}
		for i := 0; i < s.Retries*4; i++ {
			t, v, f := RunOne(s, clone(r.Case))
			if v != nil {
				for _, l := range t.trace {
					fmt.Println("  ", l)
				}
				fmt.Printf("REPRODUCED %s\n", v.Error())
				return 1
			}
			if s.Retries == 1 || f != "" {
				break
			}
		}
		fmt.Println("NOT REPRODUCED")
		return 0
	}
	fmt.Fprintln(os.Stderr, "unknown suite", r.Suite)
	return 2
}
