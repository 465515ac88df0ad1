//go:build go1.22

package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/spf13/viper"
	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/plugin/tree/common"
	"github.com/netauth/netauth/internal/plugin/tree/manager"
	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/tree"
	"github.com/netauth/netauth/internal/zzv/eng"
	ptree "github.com/netauth/netauth/pkg/plugin/tree"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// ---- the plugins, in a process of their own ----

// plugCall is what a plugin notes about one call.
type plugCall struct {
	Action string
	Object []byte // the entity or group
	Data   []byte // the data entity
	Bad    string
}

// plugin is a plugin that notes its calls and does as the policy says.
type plugin struct{ dir, id string }

var errRefused = errors.New("refused by the plugin")

func (p plugin) policy() map[string]string {
	out := map[string]string{}
	if b, err := os.ReadFile(filepath.Join(p.dir, "policy")); err == nil {
		json.Unmarshal(b, &out)
	}
	return out
}

func (p plugin) note(c plugCall) {
	b, _ := json.Marshal(c)
	f, err := os.OpenFile(filepath.Join(p.dir, "calls"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600)
	if err != nil {
		return
	}
	f.Write(append(b, '\n'))
	f.Close()
}

func (p plugin) entity(a common.PluginAction, e pb0, de *types.Entity) (types.Entity, error) {
	c := plugCall{Action: a.String()}
	var err error
	if c.Object, err = proto.Marshal(&e); err != nil {
		c.Bad = err.Error()
	}
	if de != nil {
		if c.Data, err = proto.Marshal(de); err != nil {
			c.Bad = err.Error()
		}
	}
	p.note(c)
	mode := p.policy()[a.String()]
	if mode == "refuse" {
		return e, errRefused
	}
	editEntity(&e, mode, p.id)
	return e, nil
}

func (p plugin) group(a common.PluginAction, g types.Group) (types.Group, error) {
	c := plugCall{Action: a.String()}
	var err error
	if c.Object, err = proto.Marshal(&g); err != nil {
		c.Bad = err.Error()
	}
	p.note(c)
	mode := p.policy()[a.String()]
	if mode == "refuse" {
		return g, errRefused
	}
	editGroup(&g, mode, p.id)
	return g, nil
}

type pb0 = types.Entity

func (p plugin) EntityCreate(e, de types.Entity) (types.Entity, error) {
	return p.entity(common.EntityCreate, e, &de)
}
func (p plugin) EntityUpdate(e types.Entity) (types.Entity, error) {
	return p.entity(common.EntityUpdate, e, nil)
}
func (p plugin) EntityLock(e types.Entity) (types.Entity, error) {
	return p.entity(common.EntityLock, e, nil)
}
func (p plugin) EntityUnlock(e types.Entity) (types.Entity, error) {
	return p.entity(common.EntityUnlock, e, nil)
}
func (p plugin) EntityDestroy(e types.Entity) (types.Entity, error) {
	return p.entity(common.EntityDestroy, e, nil)
}
func (p plugin) GroupCreate(g types.Group) (types.Group, error) {
	return p.group(common.GroupCreate, g)
}
func (p plugin) GroupUpdate(g types.Group) (types.Group, error) {
	return p.group(common.GroupUpdate, g)
}
func (p plugin) GroupDestroy(g types.Group) (types.Group, error) {
	return p.group(common.GroupDestroy, g)
}
func (p plugin) PreSecretChange(e, de types.Entity) (types.Entity, error) {
	return p.entity(common.PreSecretChange, e, &de)
}
func (p plugin) PostSecretChange(e, de types.Entity) (types.Entity, error) {
	return p.entity(common.PostSecretChange, e, &de)
}
func (p plugin) PreAuthCheck(e, de types.Entity) (types.Entity, error) {
	return p.entity(common.PreAuthCheck, e, &de)
}
func (p plugin) PostAuthCheck(e, de types.Entity) (types.Entity, error) {
	return p.entity(common.PostAuthCheck, e, &de)
}

// editEntity is what a plugin does to an entity.
func editEntity(e *types.Entity, mode, id string) {
	if mode == "" {
		return
	}
	if e.Meta == nil {
		e.Meta = &types.EntityMeta{}
	}
	switch mode {
	case "um":
		e.Meta.UntypedMeta = ptree.PatchKeyValueSlice(e.Meta.UntypedMeta, "UPSERT", "plug"+id, "1")
	case "clear":
		e.Meta.UntypedMeta = nil
		e.Meta.KV = nil
	case "typed":
		e.Meta.Shell = str("/bin/plug")
	case "blank":
		e.Meta.Shell = str("")
		e.Meta.KV = []*types.KVData{mkKV("plug", []string{"", "x", ""})}
	case "keys":
		e.Meta.Keys = []string{"PLUG:" + id}
	case "lock":
		t := true
		e.Meta.Locked = &t
	}
}

// editGroup is what a plugin does to a group.
func editGroup(g *types.Group, mode, id string) {
	switch mode {
	case "um":
		g.UntypedMeta = ptree.PatchKeyValueSlice(g.UntypedMeta, "UPSERT", "plug"+id, "1")
	case "clear":
		g.UntypedMeta = nil
		g.KV = nil
	case "typed":
		g.DisplayName = str("plug")
	case "blank":
		g.DisplayName = str("")
		g.KV = []*types.KVData{mkKV("plug", []string{""})}
	}
}

// pluginChild serves a plugin until it is told to end, or its server does.
func pluginChild() int {
	parent := os.Getppid()
	go func() {
		for os.Getppid() == parent {
			time.Sleep(200 * time.Millisecond)
		}
		if _, err := os.Stat(filepath.Join(os.Getenv("VERIF_PLUGIN_DIR"), "linger")); err == nil {
			time.Sleep(20 * time.Second) // the check wants to see who is left
		}
		os.Exit(0)
	}()
	dir := os.Getenv("VERIF_PLUGIN_DIR")
	if os.Getenv("VERIF_PLUGIN") == "broken" {
		return 1
	}
	os.WriteFile(filepath.Join(dir, "pid"), []byte(strconv.Itoa(os.Getpid())), 0600)
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("pid-%d", os.Getpid())), nil, 0600)
	if os.Getenv("VERIF_PLUGIN") == "null" {
		ptree.PluginMain(ptree.NullPlugin{})
	} else {
		ptree.PluginMain(plugin{dir, filepath.Base(dir)})
	}
	return 0
}

// ---- the server's side ----

var (
	plugOnce sync.Once
	plugMgr  = new(manager.Manager) // the one the hooks refer to
	plugHome string
	plugSets = map[string]*plugSet{}
	plugSeq  int
)

// plugSet is a number of running plugins.
type plugSet struct {
	mgr   manager.Manager
	names []string
	seen  []int // bytes of the notes that were looked at
}

// plugBoot registers the hooks; the trees of other suites don't use them.
func plugBoot() {
	plugOnce.Do(func() {
		boot()
		m, err := manager.New(nullLog)
		if err != nil {
			panic(err)
		}
		*plugMgr = m
		plugMgr.RegisterEntityHooks()
		plugMgr.RegisterGroupHooks()
		if plugHome, err = os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "plugins-"); err != nil {
			panic(err)
		}
	})
}

func plugDir(name string) string { return filepath.Join(plugHome, name) }

// plugExec makes the file the server starts.
func plugExec(name, kind string) string {
	dir := plugDir(name)
	os.MkdirAll(dir, 0755)
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	f := filepath.Join(plugHome, name+".treeplugin")
	sh := fmt.Sprintf("#!/bin/sh\nexport VERIF_CHILD=plugin VERIF_PLUGIN=%s VERIF_PLUGIN_DIR='%s'\nexec '%s' -test.run TestVerif\n", kind, dir, exe)
	if err := os.WriteFile(f, []byte(sh), 0755); err != nil {
		panic(err)
	}
	return f
}

// plugLoad has the server load plugins: n... null plugins, a... active ones,
// b... ones that don't start.
func plugLoad(t *eng.T, names ...string) *plugSet {
	plugBoot()
	var list []string
	for _, n := range names {
		list = append(list, plugExec(n, map[byte]string{'n': "null", 'a': "active", 'b': "broken"}[n[0]]))
	}
	return plugStart(t, names, list)
}

func plugStart(t *eng.T, names, list []string) *plugSet {
	s := &plugSet{names: names, seen: make([]int, len(names))}
	var err error
	if s.mgr, err = manager.New(nullLog); err != nil {
		panic(err)
	}
	for _, n := range names {
		os.Remove(filepath.Join(plugDir(n), "pid"))
	}
	viper.Set("plugin.loadstatic", true)
	viper.Set("plugin.list", list)
	s.mgr.LoadPlugins()
	for _, n := range names {
		if _, err := os.Stat(filepath.Join(plugDir(n), "pid")); err != nil && n[0] != 'b' {
			t.Abandon("plugin %s did not start", n)
		}
	}
	return s
}

// use makes the hooks refer to the set.
func (s *plugSet) use() { *plugMgr = s.mgr }

// plugFor returns a set that is kept running.
func plugFor(t *eng.T, kind string) *plugSet {
	plugBoot()
	if s := plugSets[kind]; s != nil {
		return s
	}
	var names []string
	if kind != "none" {
		for _, n := range strings.Split(kind, "+") {
			names = append(names, n+"-"+strings.ReplaceAll(kind, "+", "-"))
		}
	}
	s := plugLoad(t, names...)
	plugSets[kind] = s
	return s
}

func (s *plugSet) policy(p []map[string]string) {
	for i, n := range s.names {
		f := filepath.Join(plugDir(n), "policy")
		if i >= len(p) || len(p[i]) == 0 {
			os.Remove(f)
			continue
		}
		b, _ := json.Marshal(p[i])
		if err := os.WriteFile(f, b, 0600); err != nil {
			panic(err)
		}
	}
}

// news lists the calls a plugin noted since the last time.
func (s *plugSet) news(i int) []plugCall {
	b, err := os.ReadFile(filepath.Join(plugDir(s.names[i]), "calls"))
	if err != nil {
		return nil
	}
	nb := b[s.seen[i]:]
	s.seen[i] = len(b)
	if len(b) > 1<<20 {
		os.Remove(filepath.Join(plugDir(s.names[i]), "calls"))
		s.seen[i] = 0
	}
	var out []plugCall
	for _, l := range bytes.Split(nb, []byte("\n")) {
		var c plugCall
		if len(l) > 0 && json.Unmarshal(l, &c) == nil {
			out = append(out, c)
		}
	}
	return out
}

// kill ends a plugin's process the hard way.
func (s *plugSet) kill(i int) {
	b, err := os.ReadFile(filepath.Join(plugDir(s.names[i]), "pid"))
	if err != nil {
		return
	}
	pid, err := strconv.Atoi(string(b))
	if err != nil || pid <= 1 {
		return
	}
	syscall.Kill(pid, syscall.SIGKILL)
	for n := 0; n < 500; n++ {
		// Gone, or not yet collected.
		st, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
		if err != nil || bytes.Contains(st, []byte(") Z ")) {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	os.Remove(filepath.Join(plugDir(s.names[i]), "pid"))
}

// hooksOf lists the plugin actions an operation that succeeds goes through.
func hooksOf(o eng.Op) []string {
	switch o.K {
	case "ECreate":
		return []string{"EntityCreate"}
	case "EDestroy":
		return []string{"EntityDestroy"}
	case "ELock":
		return []string{"EntityLock"}
	case "EUnlock":
		return []string{"EntityUnlock"}
	case "EUpdate":
		return []string{"EntityUpdate"}
	case "ESecret":
		return []string{"PreSecretChange", "PostSecretChange"}
	case "Auth", "GetToken":
		return []string{"PreAuthCheck", "PostAuthCheck"}
	case "GCreate":
		return []string{"GroupCreate"}
	case "GDestroy":
		return []string{"GroupDestroy"}
	case "GUpdate":
		return []string{"GroupUpdate"}
	case "EUM", "GUM":
		if a := o.Str(1); a == "UPSERT" || a == "CLEAREXACT" || a == "CLEARFUZZY" {
			return []string{map[string]string{"EUM": "EntityUpdate", "GUM": "GroupUpdate"}[o.K]}
		}
	}
	return nil
}

func objKey(o eng.Op) string {
	if strings.HasPrefix(o.K, "G") && o.K != "GetToken" {
		return "/groups/" + o.Str(0)
	}
	return "/entities/" + o.Str(0)
}

// dropZero takes fields out that are present but empty: readers can't tell.
func dropZero(m interface{}) {
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Ptr && !f.IsNil() && f.Elem().Kind() != reflect.Struct && f.Elem().IsZero() {
			f.Set(reflect.Zero(f.Type()))
		}
	}
}

func sortCaps(c []types.Capability) { sort.Slice(c, func(i, j int) bool { return c[i] < c[j] }) }

// norm brings lists that are sets into one order.
func norm(snap map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range snap {
		out[k] = v
		if strings.HasPrefix(k, "/groups/") {
			g := &types.Group{}
			if proto.Unmarshal([]byte(v), g) == nil {
				dropZero(g)
				sort.Strings(g.UntypedMeta)
				sort.Strings(g.Expansions)
				sortCaps(g.Capabilities)
				if b, err := proto.Marshal(g); err == nil {
					out[k] = string(b)
				}
			}
			continue
		}
		e := &types.Entity{}
		if proto.Unmarshal([]byte(v), e) == nil {
			if e.Meta == nil {
				e.Meta = &types.EntityMeta{}
			}
			dropZero(e)
			dropZero(e.Meta)
			sort.Strings(e.Meta.UntypedMeta)
			sort.Strings(e.Meta.Keys)
			sort.Strings(e.Meta.Groups)
			sortCaps(e.Meta.Capabilities)
			if b, err := proto.Marshal(e); err == nil {
				out[k] = string(b)
			}
		}
	}
	return out
}

// runPlugins runs a history on a server with plugins and on one without:
// apart from what the plugins are told to do, nothing may differ.
func runPlugins(t *eng.T, c *eng.Case) {
	kind := c.Cfg["plugins"]
	mortal := strings.HasPrefix(kind, "mortal")
	var s *plugSet
	if mortal {
		plugBoot()
		plugSeq++
		s = plugLoad(t, fmt.Sprintf("active-mortal-%d", plugSeq))
		s.use()
		defer func() { s.mgr.Shutdown() }()
	} else {
		if strings.Trim(kind, "+abcdefghijklmnopqrstuvwxyz0123456789") != "" || kind == "" {
			kind = "none"
		}
		s = plugFor(t, kind)
	}
	s.use()
	s.policy(nil)
	for i := range s.names {
		s.news(i)
	}
	plugNext = func(m *tree.Manager) {
		plugMgr.ConfigureEntityChains(m.RegisterEntityHookToChain)
		plugMgr.ConfigureGroupChains(m.RegisterGroupHookToChain)
	}
	b := c.Cfg["backend"]
	if b == "" {
		b = "memory"
	}
	w := NewWorld(t, b, "nocrypto")
	ref := newHist(t, &eng.Case{}) // the server without plugins
	through, touched := 0, 0
	dead := false
	for _, o := range c.Ops {
		switch o.K {
		case "Restart":
			w.Restart()
			ref.w.Restart()
			t.Tracef("restart")
			continue
		case "Kill":
			if mortal && !dead {
				s.kill(0)
				dead = true
				t.Tracef("the plugin's process is killed")
				t.Class("killed")
			}
			plugHealth(t, w, s.names, dead)
			continue
		case "Revive":
			if mortal && dead {
				s.mgr.Shutdown()
				plugSeq++
				s = plugLoad(t, fmt.Sprintf("active-mortal-%d", plugSeq))
				s.use()
				dead = false
				t.Tracef("the plugin is started anew")
				t.Class("revived")
			}
			plugHealth(t, w, s.names, dead)
			continue
		case "Broken":
			// A plugin that doesn't start is reported, and of no further
			// consequence.
			plugSeq++
			x := plugLoad(t, fmt.Sprintf("broken-%d", plugSeq))
			if len(s.names) == 0 {
				s = x
				s.use()
			}
			t.Tracef("a plugin does not start")
			t.Class("broken")
			plugHealth(t, w, x.names, true)
			if s == x {
				s.names, s.seen = nil, nil
			}
			continue
		}
		act := hooksOf(o)
		// What the plugins are told to do with this operation.
		pol := make([]map[string]string, len(s.names))
		var edits [][2]string // plugin, mode, in the order of the actions
		refused, edited := "", false
		for i := range pol {
			pol[i] = map[string]string{}
		}
		for _, sub := range o.Sub {
			i := int(sub.Int(0))
			if i < 0 || i >= len(s.names) || s.names[i][0] != 'a' || pol[i][sub.Str(0)] != "" || !set(act...)[sub.Str(0)] {
				continue
			}
			mode := sub.Str(1)
			if len(s.names) > 1 && mode != "refuse" && mode != "um" && mode != "lock" {
				mode = "um" // the order of plugins is open
			}
			if mode == "lock" && sub.Str(0) != "PreAuthCheck" {
				mode = "um"
			}
			pol[i][sub.Str(0)] = mode
		}
		for _, a := range act {
			for i := range pol {
				switch m := pol[i][a]; {
				case m == "":
				case m == "refuse" || m == "lock":
					if refused == "" {
						refused = a
					}
				default:
					edits = append(edits, [2]string{filepath.Base(plugDir(s.names[i])), m})
					edited = true
				}
			}
		}
		s.policy(pol)
		before := w.Snapshot()
		p := ref.plan(o)
		resp, code := w.Call(p.method, w.Root(), p.req)
		stops := refused != "" || dead && len(act) > 0
		what := opStr(o)
		if len(o.Sub) > 0 {
			what += fmt.Sprintf(" with plugins told %v", pol)
		}
		t.Tracef("%s -> %v", what, code)
		calls := make([][]plugCall, len(s.names))
		for i := range s.names {
			if s.names[i][0] == 'a' {
				calls[i] = s.news(i)
			}
		}
		after := w.Snapshot()
		for i := range calls {
			for _, pc := range calls[i] {
				if pc.Bad != "" {
					t.Failf("transport", "%s: plugin %s was given, for %s, something that is no entity or group: %s", what, s.names[i], pc.Action, pc.Bad)
				}
			}
		}
		if stops {
			why := "a plugin refuses " + refused
			if refused == "" {
				why = "a plugin is dead"
			}
			if code == codes.OK {
				t.Failf("refusal", "%s succeeds though %s", what, why)
			}
			if d := diffSnap(norm(before), norm(after)); d != "" {
				t.Failf("refusal", "%s, which failed as %s, still changed: %s", what, why, d)
			}
			if !dead {
				past := false
				for _, a := range act {
					for i := range calls {
						if past && countCalls(calls[i], a) > 0 {
							t.Failf("calls", "%s: plugin %s was called for %s though %s before", what, s.names[i], a, why)
						}
					}
					past = past || a == refused
				}
			}
			touched++
			t.Class("refused:" + o.K)
			continue
		}
		r2, code2 := ref.w.Call(p.method, ref.w.Root(), p.req)
		if code != code2 {
			t.Failf("differs", "%s ends with %v, without plugins with %v", what, code, code2)
		}
		if code == codes.OK && !proto.Equal(resp, r2) && !bothLists(resp, r2) {
			t.Failf("differs", "%s is answered with %s, without plugins with %s", what, proto.CompactTextString(resp), proto.CompactTextString(r2))
		}
		// The same edits, on the server without plugins.
		if code == codes.OK && edited && o.K != "EDestroy" && o.K != "GDestroy" {
			touched++
			t.Class("edited:" + o.K)
			for _, ed := range edits {
				if strings.HasPrefix(objKey(o), "/groups/") {
					g, err := ref.w.db.LoadGroup(o.Str(0))
					if err != nil {
						t.Abandon("cannot edit group %q", o.Str(0))
					}
					editGroup(g, ed[1], ed[0])
					if err := ref.w.db.SaveGroup(g); err != nil {
						t.Abandon("cannot edit group %q: %v", o.Str(0), err)
					}
					continue
				}
				e, err := ref.w.db.LoadEntity(o.Str(0))
				if err != nil {
					t.Abandon("cannot edit entity %q", o.Str(0))
				}
				editEntity(e, ed[1], ed[0])
				if err := ref.w.db.SaveEntity(e); err != nil {
					t.Abandon("cannot edit entity %q: %v", o.Str(0), err)
				}
			}
		}
		if d := diffSnap(norm(ref.w.Snapshot()), norm(after)); d != "" {
			t.Failf("differs", "after %s the stores differ from a server without plugins (plus the edits of the plugins): %s", what, d)
		}
		// The calls.
		_, existed := before[objKey(o)]
		for i := range calls {
			if s.names[i][0] != 'a' {
				continue
			}
			got := map[string]int{}
			for _, pc := range calls[i] {
				got[pc.Action]++
			}
			for _, a := range act {
				want := 1
				if code != codes.OK {
					want = 0
					if a == "PreAuthCheck" && existed {
						want = 1
					}
					if a == "PreSecretChange" {
						want = got[a] // the new secret may be unacceptable
					}
				}
				if got[a] != want {
					t.Failf("calls", "%s, which ended with %v: plugin %s was called %d times for %s, want %d", what, code, s.names[i], got[a], a, want)
				}
				delete(got, a)
			}
			for a := range got {
				t.Failf("calls", "%s: plugin %s was called for %s", what, s.names[i], a)
			}
			if code != codes.OK {
				continue
			}
			for _, pc := range calls[i] {
				if !edited || len(s.names) == 1 && len(act) == 1 {
					through++
					plugSaw(t, o, what, s.names[i], pc, edited, before[objKey(o)], after[objKey(o)])
				}
			}
		}
		if code == codes.OK && len(act) > 0 && (len(s.names) > 0 || kind == "none") {
			through++
			t.Class("through:" + o.K)
		}
	}
	if through >= 3 && (touched > 0 || kind == "none" || strings.HasPrefix(kind, "n") || mortal) {
		t.NonTrivial()
	}
}

func countCalls(cs []plugCall, a string) int {
	n := 0
	for _, c := range cs {
		if c.Action == a {
			n++
		}
	}
	return n
}

// bothLists compares answers whose order means nothing.
func bothLists(a, b proto.Message) bool {
	x, ok1 := a.(*pb.ListOfStrings)
	y, ok2 := b.(*pb.ListOfStrings)
	if ok1 && ok2 {
		return same(x.GetStrings(), y.GetStrings())
	}
	if x, ok := a.(*pb.AuthResult); ok {
		// Tokens list the capabilities in no order of meaning.
		y := b.(*pb.AuthResult)
		claims := func(s string) (string, bool) {
			var c token.Claims
			if s == "" || json.Unmarshal([]byte(s), &c) != nil {
				return s, false
			}
			return fmt.Sprintf("%q %v", c.EntityID, sorted(capList(c.Capabilities))), true
		}
		cx, ok1 := claims(x.GetToken())
		cy, ok2 := claims(y.GetToken())
		return ok1 && ok2 && cx == cy
	}
	kx, ok1 := a.(*pb.ListOfKVData)
	ky, ok2 := b.(*pb.ListOfKVData)
	return ok1 && ok2 && same(kvStr(kvPB(kx.GetKVData())), kvStr(kvPB(ky.GetKVData())))
}

// plugSaw checks what one call of a plugin was about.
func plugSaw(t *eng.T, o eng.Op, what, name string, pc plugCall, edited bool, before, after string) {
	k := objKey(o)
	is := func(which, want string) {
		if diffSnap(norm(map[string]string{k: string(pc.Object)}), norm(map[string]string{k: want})) != "" {
			t.Failf("calls", "%s: plugin %s was called for %s with %s, %s is %s", what, name, pc.Action, showStored(k, string(pc.Object)), which, showStored(k, want))
		}
	}
	switch pc.Action {
	case "EntityDestroy", "GroupDestroy", "PreAuthCheck", "PreSecretChange":
		is("what is stored", before)
	default:
		if !edited {
			is("what is then stored", after)
		}
	}
	switch pc.Action {
	case "EntityCreate", "PreAuthCheck", "PostAuthCheck", "PreSecretChange", "PostSecretChange":
		de := &types.Entity{}
		if err := proto.Unmarshal(pc.Data, de); err != nil || de.GetID() != o.Str(0) || de.GetSecret() != o.Str(1) {
			t.Failf("calls", "%s: plugin %s was called for %s with the request data %s", what, name, pc.Action, showStored("/entities/", string(pc.Data)))
		}
	}
}

// plugHealth checks the health report on plugins.
func plugHealth(t *eng.T, w *World, names []string, bad bool) {
	if len(names) == 0 {
		return
	}
	r, code := w.Call("SystemStatus", "", &pb.Empty{})
	if code != codes.OK {
		t.Failf("health", "the health report ends with %v", code)
	}
	st := r.(*pb.ServerStatus)
	for _, n := range names {
		for _, s := range st.GetSubSystems() {
			if s.GetName() != "plugin-"+n {
				continue
			}
			if s.GetOK() == bad {
				t.Failf("health", "the health report on plugin %s, which is running: %v, says OK: %v", n, !bad, s.GetOK())
			}
			if bad && st.GetSystemOK() {
				t.Failf("health", "the health report says that all is well though plugin %s is not running", n)
			}
			t.Class("health")
		}
	}
}

// aimSecrets makes most authentications use the right secret.
func aimSecrets(r eng.R, ops []eng.Op) {
	cur := map[string]eng.S{}
	for i, o := range ops {
		if len(o.S) < 2 {
			continue
		}
		id := o.Str(0)
		switch _, known := cur[id]; o.K {
		case "ECreate":
			if !known {
				cur[id] = o.S[1]
			}
		case "EDestroy":
			delete(cur, id)
		case "ESecret":
			if known {
				cur[id] = o.S[1]
			}
		case "Auth", "GetToken":
			if known && r.Chance(2, 3) {
				ops[i].S[1] = cur[id]
			}
		}
	}
}

func genPlugins(r eng.R) *eng.Case {
	g := newGen(r, 1+r.Intn(3), 1+r.Intn(2))
	c := &eng.Case{Cfg: backendFor(r, 1, 1)}
	kind := r.Weighted("none", 2, "n1", 8, "n1+n2", 4, "a1", 16, "a1+n1", 6, "a1+a2", 8, "mortal", 1)
	c.Cfg["plugins"] = kind
	c.Ops = g.setup()
	g.weights("ECreate", 4, "EDestroy", 3, "ELock", 4, "EUnlock", 4, "ESecret", 8, "Auth", 14, "GetToken", 3, "EUpdate", 12, "EUM", 12, "EKV", 10, "EKey", 5, "Cap", 3,
		"GCreate", 3, "GDestroy", 2, "GUpdate", 8, "GUM", 8, "GKV", 6, "GRule", 3, "MAdd", 3, "MDel", 1, "Restart", 1)
	c.Ops = append(c.Ops, g.seq(10+r.Intn(25))...)
	if kind == "mortal" {
		for _, k := range []string{"Kill", "Revive", "Broken"} {
			at := len(c.Ops)/3 + r.Intn(len(c.Ops)/3+1)
			if k == "Revive" {
				at = len(c.Ops) * 3 / 4
			}
			c.Ops = append(c.Ops[:at], append([]eng.Op{{K: k}}, c.Ops[at:]...)...)
		}
		return c
	}
	aimSecrets(r, c.Ops)
	n := strings.Count(kind, "+") + 1
	for i := range c.Ops {
		acts := hooksOf(c.Ops[i])
		if len(acts) == 0 || !r.Chance(1, 3) {
			continue
		}
		for k := 1 + r.Intn(2); k > 0; k-- {
			mode := r.Weighted("refuse", 6, "um", 6, "clear", 3, "typed", 3, "blank", 4, "keys", 3)
			a := r.Pick(acts...)
			if a == "PreAuthCheck" && r.Chance(1, 3) {
				mode = "lock"
			}
			c.Ops[i].Sub = append(c.Ops[i].Sub, eng.O("tell", a, mode).WithN(int64(r.Intn(n))))
		}
	}
	return c
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C24", Name: "plugins", Quick: 3000, Deep: 60000, MaxSeconds: 120,
		Rule: "at least three accepted requests passed through a running plugin (or, without plugins, through the hooks), and a plugin refused or edited something or was one that does nothing",
		Gen:  genPlugins, Run: runPlugins,
	})
}
