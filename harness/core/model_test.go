//go:build go1.22

package core

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"

	types "github.com/netauth/protocol"
)

// The reference model: plain maps, one straightforward reading of the
// documented behaviour of every request.

type mkv struct {
	key  string
	vals []string
}

type ment struct {
	num       int32
	secret    string
	secretOK  bool // the plaintext is known to the model
	locked    bool
	typed     map[string]string
	groups    map[string]bool
	caps      map[types.Capability]bool
	keys      map[string]bool
	um        map[string]string
	kv        []mkv
	everSaved bool
}

type mgrp struct {
	num     int32
	display string
	managed string
	caps    map[types.Capability]bool
	rules   map[string]string // target -> INCLUDE / EXCLUDE
	um      map[string]string
	kv      []mkv
}

type model struct {
	ents map[string]*ment
	grps map[string]*mgrp
}

func newModel() *model { return &model{ents: map[string]*ment{}, grps: map[string]*mgrp{}} }

func newMent() *ment {
	return &ment{typed: map[string]string{}, groups: map[string]bool{}, caps: map[types.Capability]bool{}, keys: map[string]bool{}, um: map[string]string{}}
}

func newMgrp() *mgrp {
	return &mgrp{caps: map[types.Capability]bool{}, rules: map[string]string{}, um: map[string]string{}}
}

// validName says whether a name can denote an entity or group at all.
func validName(n string) bool {
	return n != "" && n != "." && n != ".." && !strings.Contains(n, "/")
}

// hostile is a name the store of this history legitimately cannot hold.
func (h *hist) hostile(n string) bool {
	return !validName(n) || strings.ContainsRune(n, 0) || len(n) > 200
}

// hostileName is a name some store legitimately cannot hold.
func hostileName(n string) bool {
	return !validName(n) || strings.ContainsRune(n, 0) || len(n) > 48
}

func setStr(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func capStr(m map[types.Capability]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k.String())
	}
	sort.Strings(out)
	return out
}

func capList(cs []types.Capability) []string {
	var out []string
	for _, c := range cs {
		out = append(out, c.String())
	}
	sort.Strings(out)
	return out
}

func umStr(m map[string]string) []string {
	var out []string
	for k, v := range m {
		out = append(out, k+":"+v)
	}
	sort.Strings(out)
	return out
}

func mapStr(m map[string]string, sep string) []string {
	var out []string
	for k, v := range m {
		out = append(out, k+sep+v)
	}
	sort.Strings(out)
	return out
}

func kvStr(kv []mkv) []string {
	var out []string
	for _, e := range kv {
		out = append(out, fmt.Sprintf("%q=%q", e.key, e.vals))
	}
	sort.Strings(out)
	return out
}

func kvPB(kv []*types.KVData) []mkv {
	var out []mkv
	for _, d := range kv {
		m := mkv{key: d.GetKey()}
		for i, v := range d.GetValues() {
			s := v.GetValue()
			if int(v.GetIndex()) != i {
				s = fmt.Sprintf("%s#%d", s, v.GetIndex())
			}
			m.vals = append(m.vals, s)
		}
		out = append(out, m)
	}
	return out
}

func mkKV(key string, vals []string) *types.KVData {
	d := &types.KVData{Key: str(key)}
	for i := range vals {
		ix := int32(i)
		d.Values = append(d.Values, &types.KVValue{Value: str(vals[i]), Index: &ix})
	}
	return d
}

var typedFields = []string{"PrimaryGroup", "GECOS", "LegalName", "DisplayName", "Home", "Shell", "GraphicalShell", "BadgeNumber"}

func typedGet(m *types.EntityMeta, f string) *string {
	if m == nil {
		return nil
	}
	switch f {
	case "PrimaryGroup":
		return m.PrimaryGroup
	case "GECOS":
		return m.GECOS
	case "LegalName":
		return m.LegalName
	case "DisplayName":
		return m.DisplayName
	case "Home":
		return m.Home
	case "Shell":
		return m.Shell
	case "GraphicalShell":
		return m.GraphicalShell
	case "BadgeNumber":
		return m.BadgeNumber
	}
	return nil
}

func typedSet(m *types.EntityMeta, f, v string) {
	switch f {
	case "PrimaryGroup":
		m.PrimaryGroup = &v
	case "GECOS":
		m.GECOS = &v
	case "LegalName":
		m.LegalName = &v
	case "DisplayName":
		m.DisplayName = &v
	case "Home":
		m.Home = &v
	case "Shell":
		m.Shell = &v
	case "GraphicalShell":
		m.GraphicalShell = &v
	case "BadgeNumber":
		m.BadgeNumber = &v
	}
}

// nextNum is the number an automatic allocation should yield.
func (m *model) nextEnt() (int32, bool) {
	var l int32
	for _, e := range m.ents {
		if e.num > l {
			l = e.num
		}
	}
	return l + 1, l != math.MaxInt32
}

func (m *model) nextGrp() (int32, bool) {
	var l int32
	for _, g := range m.grps {
		if g.num > l {
			l = g.num
		}
	}
	return l + 1, l != math.MaxInt32
}

// closure is everything reachable from a group through rules, itself
// included; missing is set if a reachable group does not exist.
func (m *model) closure(g string) (out map[string]bool, missing bool) {
	out = map[string]bool{}
	var walk func(string)
	walk = func(n string) {
		if out[n] {
			return
		}
		out[n] = true
		mg := m.grps[n]
		if mg == nil {
			missing = true
			return
		}
		for t := range mg.rules {
			walk(t)
		}
	}
	walk(g)
	return
}

// eff is effective membership, straight from the definition.
func (m *model) eff(g, e string) bool {
	me := m.ents[e]
	if me == nil {
		return false
	}
	memo := map[string]bool{}
	busy := map[string]bool{}
	var f func(string) bool
	f = func(n string) bool {
		mg := m.grps[n]
		if mg == nil || busy[n] {
			return false
		}
		if v, ok := memo[n]; ok {
			return v
		}
		busy[n] = true
		in := me.groups[n]
		for t, mode := range mg.rules {
			if mode == "INCLUDE" && f(t) {
				in = true
			}
		}
		for t, mode := range mg.rules {
			if mode == "EXCLUDE" && f(t) {
				in = false
			}
		}
		busy[n] = false
		memo[n] = in
		return in
	}
	return f(g)
}

func (m *model) members(g string) []string {
	var out []string
	for e := range m.ents {
		if m.eff(g, e) {
			out = append(out, e)
		}
	}
	sort.Strings(out)
	return out
}

func (m *model) memberships(e string) []string {
	var out []string
	for g := range m.grps {
		if m.eff(g, e) {
			out = append(out, g)
		}
	}
	sort.Strings(out)
	return out
}

// effCaps is what a token issued to e now must carry.
func (m *model) effCaps(e string) []string {
	s := map[types.Capability]bool{}
	if me := m.ents[e]; me != nil {
		for c := range me.caps {
			s[c] = true
		}
		for g, mg := range m.grps {
			if len(mg.caps) > 0 && m.eff(g, e) {
				for c := range mg.caps {
					s[c] = true
				}
			}
		}
	}
	return capStr(s)
}

var idxRe = regexp.MustCompile(`{\d+}`)

func base(k string) string { return idxRe.ReplaceAllString(k, "") }

func umRead(m map[string]string, key string) []string {
	out := []string{}
	for k, v := range m {
		if key == "*" || base(k) == base(key) {
			out = append(out, k+":"+v)
		}
	}
	sort.Strings(out)
	return out
}

func umWrite(m map[string]string, action, key, val string) {
	switch action {
	case "UPSERT":
		m[key] = val
	case "CLEAREXACT":
		delete(m, key)
	case "CLEARFUZZY":
		for k := range m {
			if base(k) == base(key) {
				delete(m, k)
			}
		}
	}
}

func kvFind(kv []mkv, k string) int {
	for i := range kv {
		if kv[i].key == k {
			return i
		}
	}
	return -1
}

// clone copies the model.
func (m *model) clone() *model {
	c := newModel()
	for id, e := range m.ents {
		x := newMent()
		x.num, x.secret, x.secretOK, x.locked = e.num, e.secret, e.secretOK, e.locked
		for k, v := range e.typed {
			x.typed[k] = v
		}
		for k, v := range e.groups {
			x.groups[k] = v
		}
		for k, v := range e.caps {
			x.caps[k] = v
		}
		for k, v := range e.keys {
			x.keys[k] = v
		}
		for k, v := range e.um {
			x.um[k] = v
		}
		x.kv = append([]mkv{}, e.kv...)
		c.ents[id] = x
	}
	for n, g := range m.grps {
		x := newMgrp()
		x.num, x.display, x.managed = g.num, g.display, g.managed
		for k, v := range g.caps {
			x.caps[k] = v
		}
		for k, v := range g.rules {
			x.rules[k] = v
		}
		for k, v := range g.um {
			x.um[k] = v
		}
		x.kv = append([]mkv{}, g.kv...)
		c.grps[n] = x
	}
	return c
}
