//go:build go1.22

package core

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/token"
	rsatoken "github.com/netauth/netauth/internal/token/jwt"
	"github.com/netauth/netauth/internal/zzv/eng"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// cmdline runs the command line tool against a world.
type cmdline struct {
	h      *hist
	bin    string
	dir    string
	keys   string // "shared": the tool can check tokens by itself
	cached map[string][]string
	how    int64    // how the secret is given: as a flag, in the environment, or when asked
	envWho bool     // the caller's name comes from the environment
	ask    []string // what is answered before the secret is asked for
}

func newCmdline(t *eng.T, h *hist, keys string) *cmdline {
	if oneSrv == nil {
		oneSrv, _, onePort = netPair(false)
	}
	oneSrv.set(h.w)
	t.Cleanup(func() { oneSrv.set(nil) })
	c := &cmdline{h: h, bin: os.Getenv("VERIF_NETAUTH"), dir: scratch(t), keys: keys, cached: map[string][]string{}}
	if c.bin == "" {
		panic("harness panic: no VERIF_NETAUTH")
	}
	h.w.tok = newRSA(keyDir(0))
	h.w.mkserver()
	if keys != "none" {
		from := keyDir(0)
		if keys == "foreign" {
			from = keyDir(1)
		}
		b, err := os.ReadFile(filepath.Join(from, "keys", "token.pem"))
		if err != nil {
			panic(err)
		}
		must(os.MkdirAll(filepath.Join(c.dir, "keys"), 0755))
		must(os.WriteFile(filepath.Join(c.dir, "keys", "token.pem"), b, 0644))
	}
	must(os.MkdirAll(filepath.Join(c.dir, "tmp"), 0755))
	must(os.WriteFile(filepath.Join(c.dir, "config.toml"), []byte(fmt.Sprintf("[core]\nserver = \"127.0.0.1\"\nport = %d\n[tls]\npwn_me = true\n", onePort)), 0644))
	return c
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// newRSA is a token service with the keys of a configuration directory.
func newRSA(dir string) token.Service {
	viper.Set("core.conf", dir)
	viper.Set("token.jwt.generate", false)
	s, err := rsatoken.NewRSA(nullLog)
	must(err)
	return s
}

// run runs the tool.
func (c *cmdline) run(actor, secret string, args ...string) (out, errs string, exit int) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	all := []string{"--entity=" + actor}
	if c.envWho {
		all = nil
	}
	if c.how == 0 {
		all = append(all, "--secret="+secret)
	}
	cmd := exec.CommandContext(ctx, c.bin, append(all, args...)...)
	cmd.Dir = c.dir
	cmd.Env = []string{"HOME=" + c.dir, "TMPDIR=" + filepath.Join(c.dir, "tmp"), "PATH=/usr/bin:/bin"}
	if c.how == 1 {
		cmd.Env = append(cmd.Env, "NETAUTH_SECRET="+secret)
	}
	if c.envWho {
		cmd.Env = append(cmd.Env, "NETAUTH_ENTITY="+actor)
	}
	if c.how == 2 {
		c.ask = append(c.ask, secret, secret)
	}
	if len(c.ask) > 0 {
		cmd.Stdin = strings.NewReader(strings.Join(c.ask, "\n") + "\n")
		c.ask = nil
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		c.h.t.Failf("cli:hang", "%q does not end", args)
	}
	if err != nil && cmd.ProcessState == nil {
		panic(fmt.Sprintf("harness panic: %v", err))
	}
	exit = cmd.ProcessState.ExitCode()
	if strings.Contains(se.String(), "goroutine ") && strings.Contains(se.String(), "panic: ") {
		c.h.t.Failf("cli:panic", "%q (as %q) crashes: %s", args, actor, clip(se.String()))
	}
	out = so.String()
	if c.how == 2 {
		out = strings.TrimPrefix(out, "Secret: \n")
	}
	return out, se.String(), exit
}

// signIn says what the tool's token for an entity carries, if it gets one.
func (c *cmdline) signIn(actor, secret string, renew bool) (caps []string, ok bool) {
	if cs, there := c.cached[actor]; there && c.keys == "shared" && !renew {
		return cs, true
	}
	e := c.h.m.ents[actor]
	if e == nil || e.locked || !e.secretOK || secret == "" || e.secret != secret {
		return nil, false
	}
	cs := c.h.m.effCaps(actor)
	c.cached[actor] = cs
	return cs, true
}

var (
	cliHealth   health.SubsystemStatus
	cliHealthOn bool
)

// lines compares printed lines, in any order.
func lines(s string) []string { return strings.Split(strings.TrimSuffix(s, "\n"), "\n") }

func entLines(id string, e *ment, fields string) []string {
	var out []string
	if fields == "" {
		fields = "ID,number,PrimaryGroup,GECOS,legalName,displayName,homedir,shell,graphicalShell,badgeNumber,capabilities"
	}
	opt := func(label, v string) {
		if v != "" {
			out = append(out, strings.Split(label+": "+v, "\n")...)
		}
	}
	for _, f := range strings.Split(fields, ",") {
		switch strings.ToLower(f) {
		case "id":
			out = append(out, "ID: "+id)
		case "number":
			out = append(out, fmt.Sprintf("Number: %d", e.num))
		case "primarygroup":
			opt("Primary Group", e.typed["PrimaryGroup"])
		case "gecos":
			opt("GECOS", e.typed["GECOS"])
		case "legalname":
			opt("legalName", e.typed["LegalName"])
		case "displayname":
			opt("displayname", e.typed["DisplayName"])
		case "homedir":
			opt("homedir", e.typed["Home"])
		case "shell":
			opt("shell", e.typed["Shell"])
		case "graphicalshell":
			opt("graphicalShell", e.typed["GraphicalShell"])
		case "badgenumber":
			opt("badgeNumber", e.typed["BadgeNumber"])
		case "capabilities":
			if len(e.caps) > 0 {
				out = append(out, "Capabilities (Direct):")
				for _, x := range capStr(e.caps) {
					out = append(out, "  - "+x)
				}
			}
		}
	}
	return out
}

func grpLines(n string, g *mgrp, fields string) []string {
	var out []string
	if fields == "" {
		fields = "name,displayName,number,managedBy,rules,capabilities"
	}
	for _, f := range strings.Split(fields, ",") {
		switch strings.ToLower(f) {
		case "name":
			out = append(out, "Name: "+n)
		case "displayname":
			out = append(out, strings.Split("Display Name: "+g.display, "\n")...)
		case "number":
			out = append(out, fmt.Sprintf("Number: %d", g.num))
		case "managedby":
			if g.managed != "" {
				out = append(out, "Managed By: "+g.managed)
			}
		case "rules":
			for t, m := range g.rules {
				out = append(out, "Rule: "+m+":"+t)
			}
		case "capabilities":
			if len(g.caps) > 0 {
				out = append(out, "Capabilities:")
				for _, x := range capStr(g.caps) {
					out = append(out, "  - "+x)
				}
			}
		}
	}
	return out
}

var cliFields = map[string]string{"PrimaryGroup": "primary-group", "GECOS": "GECOS", "LegalName": "legalName", "DisplayName": "displayName", "Home": "homedir", "Shell": "shell", "GraphicalShell": "graphicalShell", "BadgeNumber": "badgeNumber"}

// argv is the command line for an operation; nil if there is none.
func argv(o eng.Op, p *plan, n int64, actor string) []string {
	a0, a1, a2, a3 := o.Str(0), o.Str(1), o.Str(2), o.Str(3)
	num := fmt.Sprint(o.Int(0) + o.Int(6)<<32)
	for _, s := range o.S {
		if strings.ContainsRune(string(s), 0) {
			return nil
		}
	}
	switch o.K {
	case "ECreate":
		out := []string{"entity", "create", "--number=" + num, "--initial-secret=" + a1, "--", a0}
		if n == 4 { // asks for it
			out = append(out[:3], out[4:]...)
		}
		return out
	case "EDestroy":
		return []string{"entity", "destroy", "--", a0}
	case "ELock":
		return []string{"entity", "lock", "--", a0}
	case "EUnlock":
		return []string{"entity", "unlock", "--", a0}
	case "ESecret":
		if a0 == "" || a1 == "" {
			return nil // asks
		}
		out := []string{"auth", "change-secret", "--csEntity=" + a0, "--csSecret=" + a1}
		if n == 4 {
			out = out[:3]
		}
		return out
	case "EUpdate":
		out := []string{"entity", "update"}
		for i := 1; i+1 < len(o.S); i += 2 {
			f := cliFields[o.Str(i)]
			if f == "" {
				return nil
			}
			out = append(out, "--"+f+"="+o.Str(i+1))
		}
		return append(out, "--", a0)
	case "EUM", "GUM":
		out := []string{"entity", "kv", "--", a0, recase(a1, n), a2}
		if o.K == "GUM" {
			out[0] = "group"
		}
		if a1 == "UPSERT" {
			out = append(out, a3)
		}
		return out
	case "EKV", "GKV":
		out := []string{"kv2", a1, "--", recase("ENTITY", n), a0, a2}
		if o.K == "GKV" {
			out[3] = recase("GROUP", n)
		}
		if a1 == "add" || a1 == "replace" {
			if len(o.S) < 4 {
				return nil
			}
			out = append(out, strs(o.S, 3)...)
		}
		return out
	case "EKey":
		if a0 == "" {
			return nil // means oneself
		}
		out := []string{"entity", "key", "--entityID=" + a0, "--", recase(a1, n)}
		if a0 == actor && n%2 == 0 {
			out = append(out[:2], out[3:]...) // it is oneself if not said
		}
		switch a1 {
		case "ADD":
			return append(out, a2, a3)
		case "DROP":
			if a2 != "" {
				return nil // no way to say
			}
			return append(out, a3)
		case "READ":
			if a2 == "SSH" && n%3 != 0 {
				return out // these if not said
			}
			return append(out, a2)
		}
		return nil
	case "GCreate":
		return []string{"group", "create", "--number=" + num, "--display-name=" + a1, "--managed-by=" + a2, "--", a0}
	case "GDestroy":
		return []string{"group", "destroy", "--", a0}
	case "GUpdate":
		out := []string{"group", "update"}
		g := p.req.(*pb.GroupRequest).Group
		if g.DisplayName != nil {
			out = append(out, "--display-name="+g.GetDisplayName())
		}
		if g.ManagedBy != nil {
			out = append(out, "--managed-by="+g.GetManagedBy())
		}
		return append(out, "--", a0)
	case "GRule":
		if a2 == "REMOVE_RULE" {
			a2 = "DROP"
		}
		return []string{"group", []string{"rule", "expansion"}[n%2], "--", a0, recase(a2, n), a1}
	case "MAdd", "MDel":
		if len(o.S) != 2 {
			return nil
		}
		return []string{"entity", "membership", "--", a0, recase(map[string]string{"MAdd": "ADD", "MDel": "DROP"}[o.K], n), a1}
	case "Cap":
		if _, known := types.Capability_name[int32(o.Int(1))]; !known {
			return nil
		}
		out := []string{"system", "capability"}
		if o.Int(0) != 0 {
			out = append(out, "--direct")
		}
		return append(out, "--", a0, recase(a1, n), recase(cap32(o.Int(1)).String(), n/3))
	}
	return nil
}

// slip is another secret than the one that was typed first.
func slip(s string, how int64) string {
	if b := []byte(s); how%4 == 2 && len(b) > 0 && b[len(b)-1] < 128 {
		b[len(b)-1] = 'a' + (b[len(b)-1]-'a'+1)%26
		if string(b) != s {
			return string(b)
		}
	}
	if up := strings.ToUpper(s); how%4 == 3 && up != s {
		return up
	}
	if how%4 == 0 && s != "" {
		return ""
	}
	return s + "x"
}

// askable says whether a secret can be typed at a prompt.
func askable(s string) bool {
	return s == strings.TrimSpace(s) && !strings.ContainsAny(s, "\r\n")
}

// do performs one command: the operation is in Sub, or it is one of the
// tool's own.
func (c *cmdline) do(w eng.Op) {
	h := c.h
	if len(w.Sub) == 0 {
		return
	}
	o := w.Sub[0]
	actor, secret := w.Str(0), w.Str(1)
	if actor == "" || strings.ContainsRune(actor+secret, 0) {
		return
	}
	if secret == "!" {
		secret = "no such entity"
		if e := h.m.ents[actor]; e != nil {
			secret = e.secret
			if !e.secretOK {
				return
			}
		}
	}
	if strings.Contains(secret, "\x00") {
		return
	}
	c.how, c.ask, c.envWho = w.Int(1), nil, w.Int(4) != 0
	if c.how == 2 && !askable(secret) || c.how > 2 || c.how < 0 {
		c.how = 0
	}
	if o.K == "Restart" {
		h.do(o, "")
		return
	}
	var ms []mismatch
	bad := func(aspect, f string, a ...interface{}) { ms = append(ms, mismatch{aspect, fmt.Sprintf(f, a...)}) }
	desc := fmt.Sprintf("%s as %q", opStr(o), actor)
	wantOut := func(out string, want []string, ordered bool) {
		got := lines(out)
		if len(want) == 0 {
			want = []string{""}
		}
		// Values may hold line breaks.
		want = strings.Split(strings.Join(want, "\n"), "\n")
		g, x := append([]string{}, got...), append([]string{}, want...)
		if !ordered {
			sort.Strings(g)
			sort.Strings(x)
		}
		if strings.Join(g, "\n") != strings.Join(x, "\n") {
			bad("cli:output", "%s prints %q, want %q", desc, got, want)
		}
	}
	exits := func(exit int, ok bool, out, errs string) {
		if (exit == 0) != ok {
			bad("cli:exit", "%s exits with %d, want success %v (it prints %q %q)", desc, exit, ok, clip(out), clip(errs))
		}
		if ok {
			h.okOps++
			h.t.Class("ok:" + o.K)
		} else {
			h.badOps++
			h.t.Class("refused:" + o.K)
		}
	}
	a0, fields := o.Str(0), o.Str(1)
	switch o.K {
	case "Check":
		e := h.m.ents[actor]
		out, errs, exit := c.run(actor, secret, "auth", "check")
		exits(exit, e != nil && !e.locked && e.secretOK && secret != "" && e.secret == secret, out, errs)
	case "Token":
		_, ok := c.signIn(actor, secret, true)
		out, errs, exit := c.run(actor, secret, "auth", "get-token")
		exits(exit, ok, out, errs)
	case "Drop":
		delete(c.cached, actor)
		out, errs, exit := c.run(actor, secret, "auth", "destroy-token")
		exits(exit, true, out, errs)
	case "Validate":
		_, ok := c.signIn(actor, secret, false)
		out, errs, exit := c.run(actor, secret, "auth", "validate-token")
		exits(exit, ok, out, errs)
	case "Inspect":
		caps, ok := c.signIn(actor, secret, false)
		out, errs, exit := c.run(actor, secret, "auth", "inspect-token")
		exits(exit, ok && c.keys == "shared", out, errs)
		if ok && exit == 0 {
			want := []string{fmt.Sprintf("This token was issued to '%s'", actor), " Capabilities:"}
			for _, x := range caps {
				want = append(want, "  - "+x)
			}
			wantOut(out, want, false)
		}
	case "Info":
		e := h.m.ents[a0]
		out, errs, exit := c.run(actor, secret, "entity", "info", "--fields="+fields, "--", a0)
		exits(exit, e != nil, out, errs)
		if e != nil && exit == 0 {
			wantOut(out, entLines(a0, e, fields), false)
		}
	case "GInfo":
		g := h.m.grps[a0]
		out, errs, exit := c.run(actor, secret, "group", "info", "--fields="+fields, "--", a0)
		exits(exit, g != nil, out, errs)
		if g != nil && exit == 0 {
			want := grpLines(a0, g, fields)
			first := true
			for k, x := range h.m.grps {
				if x.managed == a0 && !wordless(a0) {
					if first {
						want = append(want, "The following groups are managed by this group:")
						first = false
					}
					want = append(want, "  - "+k)
				}
			}
			wantOut(out, want, false)
		}
	case "Groups":
		e := h.m.ents[a0]
		out, errs, exit := c.run(actor, secret, "entity", "memberships", "--fields="+fields, "--", a0)
		exits(exit, e != nil, out, errs)
		if e != nil && exit == 0 {
			var want []string
			for i, n := range h.m.memberships(a0) {
				if i > 0 {
					want = append(want, "---")
				}
				want = append(want, grpLines(n, h.m.grps[n], fields)...)
			}
			wantOut(out, want, false)
		}
	case "Members":
		g := h.m.grps[a0]
		out, errs, exit := c.run(actor, secret, "group", "members", "--fields="+fields, "--", a0)
		if g == nil {
			break // whether there is such a group is not said
		}
		exits(exit, true, out, errs)
		if exit == 0 {
			var want []string
			for _, n := range h.m.members(a0) {
				want = append(want, entLines(n, h.m.ents[n], fields)...)
			}
			wantOut(out, want, false)
		}
	case "Ping":
		out, errs, exit := c.run(actor, secret, "system", "ping")
		exits(exit, true, out, errs)
	case "Search", "GSearch":
		// The server's own answer is what is to be shown.
		sort, method := "entity", "EntitySearch"
		if o.K == "GSearch" {
			sort, method = "group", "GroupSearch"
		}
		r, code := h.w.Call(method, "", &pb.SearchRequest{Expression: &a0})
		if strings.Contains(a0, "\n") || r == nil {
			break
		}
		out, errs, exit := c.run(actor, secret, sort, "search", "--fields="+fields, "--", a0)
		exits(exit, code == 0, out, errs)
		if exit != 0 || code != 0 {
			break
		}
		var want []string
		sep := func(i int) {
			if i > 0 {
				want = append(want, "---")
			}
		}
		if o.K == "Search" {
			for i, e := range r.(*pb.ListOfEntities).GetEntities() {
				sep(i)
				if h.m.ents[e.GetID()] != nil {
					want = append(want, entLines(e.GetID(), h.m.ents[e.GetID()], fields)...)
				}
			}
		} else {
			for i, g := range r.(*pb.ListOfGroups).GetGroups() {
				sep(i)
				if h.m.grps[g.GetName()] != nil {
					want = append(want, grpLines(g.GetName(), h.m.grps[g.GetName()], fields)...)
				}
			}
		}
		wantOut(out, want, false)
	case "Status":
		cliHealth = health.SubsystemStatus{OK: o.Int(0) != 0, Name: "cli", Status: a0}
		if !cliHealthOn {
			cliHealthOn = true
			health.RegisterCheck("cli", func() health.SubsystemStatus { return cliHealth })
		}
		out, errs, exit := c.run(actor, secret, "system", "status")
		cliHealth.OK = true
		exits(exit, true, out, errs)
		good, mark := o.Int(0) != 0, map[bool]string{true: "[PASS]", false: "[FAIL]"}
		l := lines(out)
		row := false
		for _, x := range l {
			row = row || strings.Join(strings.Fields(x), " ") == strings.Join(strings.Fields(mark[good]+" cli "+a0), " ")
		}
		if l[0] != "Server Status: "+mark[good] || !row || strings.Contains(out, "The first system to report") == good {
			bad("cli:output", "%s (a subsystem reports ok=%v %q) prints %q", desc, good, a0, out)
		}
	case "Away":
		// There is no server.
		must(os.WriteFile(filepath.Join(c.dir, "away.toml"), []byte("[core]\nserver = \"127.0.0.1\"\nport = 1\n[tls]\npwn_me = true\n"), 0644))
		args := append([]string{"--config=" + filepath.Join(c.dir, "away.toml")}, strs(o.S, 0)...)
		out, errs, exit := c.run(actor, secret, args...)
		exits(exit, false, out, errs)
	case "Bad":
		// What is no command must not look like success.
		args := strs(o.S, 0)
		out, errs, exit := c.run(actor, secret, args...)
		exits(exit, false, out, errs)
	default:
		p := h.plan(o)
		n := w.Int(2)
		if n == 4 && (o.K == "ECreate" || o.K == "ESecret") {
			// The new secret is asked for.
			if !askable(o.Str(1)) {
				n = 0
			} else if o.K == "ECreate" {
				c.ask = []string{o.Str(1)}
			} else {
				c.ask = []string{o.Str(1), o.Str(1)}
				if w.Int(3) != 0 {
					c.ask[1] = slip(c.ask[1], w.Int(3))
					p.want, p.anyErr, p.mutate, p.free = nil, true, nil, false
				}
				if actor == o.Str(0) && c.how == 2 {
					c.ask = append([]string{secret}, c.ask...)
				}
			}
		} else if o.K == "ESecret" && actor == o.Str(0) && c.how == 2 {
			c.ask = []string{secret}
		}
		args := argv(o, p, n, actor)
		if args == nil {
			return
		}
		if (o.K == "ECreate" || o.K == "GCreate") && o.Int(6) != 0 {
			p.want, p.anyErr, p.mutate, p.free = nil, true, nil, false
		}
		if o.K == "GRule" && ruleAct(o.Str(2)) == nil || (o.K == "Cap" || o.K == "EUM" || o.K == "GUM") && action(o.Str(1)) == nil {
			p.want, p.anyErr, p.mutate, p.free = nil, true, nil, false
		}
		ok := true
		if !p.read {
			var caps []string
			caps, ok = c.signIn(actor, secret, false)
			switch {
			case !ok:
			case o.K == "ESecret" && actor == o.Str(0):
				e := h.m.ents[actor]
				ok = e != nil && !e.locked && e.secretOK && secret != "" && e.secret == secret
			case has(caps, p.need.String()) || has(caps, "GLOBAL_ROOT"):
			case o.K == "EKey" && actor == p.self:
			case (o.K == "MAdd" || o.K == "MDel") && h.m.manages(actor, o.Str(1)):
			case p.deleg != "" && h.m.manages(actor, p.deleg):
			default:
				ok = false
			}
		}
		before := h.w.Snapshot()
		if p.anyErr {
			// Whether it signs in before it notices is not defined.
			defer func() {
				c.how, c.ask = 0, nil
				c.run(actor, secret, "auth", "destroy-token")
				delete(c.cached, actor)
			}()
		}
		out, errs, exit := c.run(actor, secret, args...)
		h.t.Tracef("(%s) netauth %q -> %d %q %q", desc, args, exit, clip(out), clip(errs))
		switch {
		case !ok:
			exits(exit, false, out, errs)
			if d := diffSnap(before, h.w.Snapshot()); d != "" {
				bad("cli:refused", "%s is refused, but changes the store: %s", desc, d)
			}
		case p.free:
			if exit == 0 && p.mutate != nil {
				p.mutate()
			}
		default:
			want := len(p.want) == 1 && p.want[0] == 0 && !p.anyErr
			exits(exit, want, out, errs)
			if exit == 0 && p.mutate != nil && want {
				p.mutate()
			}
			if exit == 0 && want && p.read {
				c.readOut(o, out, wantOut)
			}
		}
		ms = append(ms, h.compare("")...)
		h.judge(o, ms)
		return
	}
	h.t.Tracef("(%s)", desc)
	ms = append(ms, h.compare("")...)
	h.judge(o, ms)
}

func has(l []string, x string) bool {
	for _, s := range l {
		if s == x {
			return true
		}
	}
	return false
}

// readOut checks what reading attributes prints.
func (c *cmdline) readOut(o eng.Op, out string, wantOut func(string, []string, bool)) {
	m := c.h.m
	want := map[string][]string{}
	a0, key := o.Str(0), o.Str(2)
	switch o.K {
	case "EKey":
		if key == "" {
			key = "SSH"
		}
		if o.Str(2) == "" {
			return // passed as it is: reads type ""
		}
		key = strings.ToUpper(key)
		if key != "*" {
			want[key] = nil
		}
		for k := range m.ents[a0].keys {
			x := strings.SplitN(k, ":", 2)
			if idxRe.MatchString(x[0]) {
				return
			}
			if key == "*" || x[0] == key {
				want[x[0]] = append(want[x[0]], x[1])
			}
		}
	case "EUM", "GUM":
		um := map[string]string{}
		if o.K == "EUM" {
			um = m.ents[a0].um
		} else {
			um = m.grps[a0].um
		}
		var ok bool
		if want, ok = umWant(um, key); !ok {
			return
		}
	case "EKV", "GKV":
		var kv []mkv
		if o.K == "EKV" {
			kv = m.ents[a0].kv
		} else {
			kv = m.grps[a0].kv
		}
		for _, x := range kv {
			if (key == "*" || key == x.key) && len(x.vals) > 0 {
				want[x.key] = x.vals
			}
		}
	}
	var l []string
	for k, vs := range want {
		if o.K == "EKV" || o.K == "GKV" {
			l = append(l, k)
		} else {
			l = append(l, k+":")
		}
		for _, v := range vs {
			l = append(l, "  "+v)
		}
	}
	wantOut(out, l, len(want) == 1 && o.K != "EKey")
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C32", Name: "command-line", Quick: 450, Deep: 9000,
		Rule:  "at least four commands succeeded and at least two were refused",
		Scope: []string{"cli", "state", "crash"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 1+r.Intn(3), 1+r.Intn(5))
			if r.Chance(1, 4) { // nearly the one with all powers
				g.ents[0] = r.Pick("BOSS", "Boss", "boss ", "bosss", "bos")
			}
			c := &eng.Case{Cfg: backendFor(r, 1, 1)}
			c.Cfg["keys"] = r.Weighted("shared", 3, "none", 1, "foreign", 1)
			// What is there at first.
			c.Ops = g.start()
			g.weights("MAdd", 5, "Cap", 5, "GUpdate", 4, "GRule", 3, "EUM", 2, "EKV", 2, "EKey", 2)
			if len(g.grps) > 3 && r.Chance(1, 2) { // a group with many rules
				for _, n := range g.grps[1:] {
					c.Ops = append(c.Ops, eng.O("GRule", g.grps[0], n, r.Pick("INCLUDE", "EXCLUDE")))
				}
			}
			c.Ops = append(c.Ops, g.seq(3+r.Intn(6))...)
			g.weights("ECreate", 6, "EDestroy", 3, "ELock", 3, "EUnlock", 3, "ESecret", 6, "EUpdate", 6, "EUM", 10, "GUM", 8, "EKV", 12, "GKV", 14, "EKey", 12, "Cap", 7,
				"GCreate", 6, "GDestroy", 3, "GUpdate", 7, "GRule", 8, "MAdd", 10, "MDel", 5, "Restart", 1)
			fields := func() string {
				return r.Pick("", "", "", "ID", "name", "id,number", "Name,Number", "shell,GECOS", "capabilities", "rules", "managedBy", "DisplayName")
			}
			for i := 8 + r.Intn(14); i > 0; i-- {
				var o eng.Op
				if r.Chance(3, 5) {
					o = g.op(g.kind())
					if (o.K == "MAdd" || o.K == "MDel") && len(o.S) > 2 {
						o.S = o.S[:2]
					}
					if o.K == "EKey" && o.Str(1) == "DROP" && r.Chance(2, 3) {
						o.S[2] = ""
					}
					if (o.K == "ECreate" || o.K == "GCreate") && r.Chance(1, 10) { // a number that does not fit
						for len(o.N) < 7 {
							o.N = append(o.N, 0)
						}
						o.N[6] = int64(r.Intn(5) - 2)
					}
				} else {
					switch r.Weighted("Check", 4, "Token", 3, "Drop", 3, "Validate", 2, "Inspect", 3, "Info", 4, "GInfo", 4, "Groups", 4, "Members", 4, "Ping", 1, "Bad", 2, "Search", 4, "GSearch", 4, "Status", 2, "Away", 1) {
					case "Check":
						o = eng.O("Check")
					case "Token":
						o = eng.O("Token")
					case "Drop":
						o = eng.O("Drop")
					case "Validate":
						o = eng.O("Validate")
					case "Inspect":
						o = eng.O("Inspect")
					case "Info":
						o = eng.O("Info", g.e(), fields())
					case "GInfo":
						o = eng.O("GInfo", g.g(), fields())
					case "Groups":
						o = eng.O("Groups", g.e(), fields())
					case "Members":
						o = eng.O("Members", g.g(), fields())
					case "Ping":
						o = eng.O("Ping")
					case "Search":
						o = eng.O("Search", r.Pick("ID:"+g.e(), g.e(), "*", "entities:*", "meta.Shell:x", "+a -b", "(", "\"", "a b", "*a*", " "), fields())
					case "GSearch":
						o = eng.O("GSearch", r.Pick("Name:"+g.g(), g.g(), "*", "DisplayName:x", "+a -b", "(", "\"", "a b", "*a*", "*g", "-"+g.g()), fields())
					case "Status":
						o = eng.O("Status", r.Pick("", "fine", "not so good")).WithN(int64(r.Intn(2)))
					case "Away":
						o = []eng.Op{
							eng.O("Away", "system", "ping"), eng.O("Away", "system", "status"), eng.O("Away", "entity", "info", "--", g.e()), eng.O("Away", "group", "info", "--", g.g()),
							eng.O("Away", "auth", "check"), eng.O("Away", "entity", "search", "--", g.e()), eng.O("Away", "group", "search", "--", g.g()), eng.O("Away", "group", "members", "--", g.g()),
							eng.O("Away", "entity", "memberships", "--", g.e()), eng.O("Away", "kv2", "get", "--", "entity", g.e(), "*"), eng.O("Away", "entity", "lock", "--", g.e()),
							eng.O("Away", "entity", "create", "--initial-secret=x", "--", "someone"), eng.O("Away", "auth", "get-token"),
						}[r.Intn(13)]
					default:
						o = []eng.Op{
							eng.O("Bad", "nonsense", g.e()), eng.O("Bad", "entity", "info"), eng.O("Bad", "entity", "destroy", g.e(), g.e()),
							eng.O("Bad", "group", "rule", g.g(), "sideways", g.g()), eng.O("Bad", "system", "capability", g.g(), "add", "FLY"),
							eng.O("Bad", "entity", "kv", g.e(), "upsert", "k"), eng.O("Bad", "kv2", "add", "entity", g.e(), "k"), eng.O("Bad", "kv2", "get", "thing", g.e(), "k"),
							eng.O("Bad", "entity", "key", "toss", "k"), eng.O("Bad", "--nonsense"),
						}[r.Intn(10)]
					}
				}
				actor := "boss"
				if r.Chance(1, 2) {
					actor = g.e()
				}
				sec := "!"
				if r.Chance(1, 8) {
					sec = r.Pick(secrets...)
				}
				w := eng.O("Cmd", actor, sec).WithN(0, int64(r.Intn(3)), int64(r.Intn(9)), int64(r.Intn(4)*r.Intn(5)/2), int64(r.Intn(5)/4))
				if (o.K == "ECreate" || o.K == "ESecret") && r.Chance(1, 2) {
					w.N[2] = 4
				}
				if (o.K == "ECreate" || o.K == "GCreate") && o.Int(6) == 0 && r.Chance(1, 4) {
					o.N[0] = []int64{0, 1, -2, 1<<31 - 1, -1 << 31}[r.Intn(5)]
				}
				w.Sub = []eng.Op{o}
				c.Ops = append(c.Ops, w)
				// What came of it.
				if k := map[byte]string{'E': "Info", 'M': "Groups", 'G': "GInfo"}[o.K[0]]; len(o.K) > 2 && k != "" && o.K != k && r.Chance(1, 4) {
					x := eng.O("Cmd", g.e(), "!").WithN(w.N...)
					x.Sub = []eng.Op{eng.O(k, o.Str(0), fields())}
					c.Ops = append(c.Ops, x)
				}
				if (o.K == "EUpdate" || o.K == "GUpdate") && r.Chance(1, 2) { // and empty again
					u := eng.O(o.K, o.Str(0))
					for i := 1; i+1 < len(o.S); i += 2 {
						u.S = append(u.S, o.S[i], "")
					}
					x := eng.O("Cmd", "boss", "!").WithN(w.N...)
					x.Sub = []eng.Op{u}
					c.Ops = append(c.Ops, x)
				}
			}
			// Things that are done and looked at.
			for i := r.Intn(3); i > 0; i-- {
				e, n := g.e(), g.g()
				num := []int64{0, 1, 5, -2, -7, 200, 40000, 70000, 1<<31 - 2, -1 << 31}[r.Intn(10)]
				val := g.text("", "x", "", "/home/x/", " pad ", "Ab C", "\tq", "%d", "a,b", "é")
				var story []eng.Op
				switch r.Intn(6) {
				case 0:
					story = []eng.Op{eng.O("EDestroy", e), eng.O("ECreate", e, r.Pick(secrets...)).WithN(num), eng.O("Info", e, "")}
				case 1:
					story = []eng.Op{eng.O("GDestroy", n), eng.O("GCreate", n, val, "").WithN(num), eng.O("GInfo", n, "")}
				case 2:
					u := eng.O("EUpdate", e)
					for i := 1 + r.Intn(3); i > 0; i-- {
						u.S = append(u.S, eng.S(r.Pick(typedFields...)), eng.S(val))
					}
					story = []eng.Op{u, eng.O("Info", e, "")}
				case 3:
					typ, k := r.Pick("SSH", "GPG", "ssh"), r.Pick(keyVals...)
					story = []eng.Op{eng.O("EKey", e, "ADD", typ, k), eng.O("EKey", e, "READ", "SSH", ""), eng.O("EKey", e, "DROP", "", k), eng.O("EKey", e, "READ", typ, "")}
				case 4:
					k := r.Pick(kvKeys...)
					story = []eng.Op{eng.O("EKV", e, "add", k, val, "v", "x"), eng.O("EKV", e, "get", k), eng.O("EKV", e, "replace", k, "y", val), eng.O("EKV", e, "get", k)}
					if r.Chance(1, 2) {
						for i := range story {
							story[i].K, story[i].S[0] = "GKV", eng.S(n)
						}
					}
				default:
					story = []eng.Op{eng.O("GRule", n, g.g(), r.Pick("INCLUDE", "EXCLUDE")), eng.O("MAdd", e, n), eng.O("Cap", n, "ADD").WithN(0, int64(allCaps[r.Intn(len(allCaps))])), eng.O("GInfo", n, ""), eng.O("Groups", e, "")}
				}
				at := r.Intn(len(c.Ops) + 1)
				var run []eng.Op
				for _, o := range story {
					x := eng.O("Cmd", "boss", "!").WithN(0, int64(r.Intn(3)), int64(r.Intn(9)), 0, 0)
					x.Sub = []eng.Op{o}
					run = append(run, x)
				}
				c.Ops = append(c.Ops[:at], append(run, c.Ops[at:]...)...)
			}
			return c
		},
		Run: func(t *eng.T, c *eng.Case) {
			h := newHist(t, c)
			cl := newCmdline(t, h, c.Cfg["keys"])
			h.do(eng.O("ECreate", "boss", "boss's secret").WithN(-1), h.w.Root())
			h.do(eng.O("Cap", "boss", "ADD").WithN(1, 0), h.w.Root())
			for _, o := range c.Ops {
				if o.K == "Cmd" {
					cl.do(o)
				} else {
					h.do(o, h.w.Root())
				}
			}
			if h.okOps >= 4 && h.badOps >= 2 {
				t.NonTrivial()
			}
		},
	})
}
