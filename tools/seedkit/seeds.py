# Planted bugs: written from the text of a property and the code.
HEAD = '''//go:build go1.22

package zzdemo

import (
	"testing"
%s)

'''


def go(body, *imports):
    imp = "".join("\n\t%s" % i for i in imports)
    return HEAD % (imp + "\n" if imp else "") + body


TYPES = 'types "github.com/netauth/protocol"'
PB = 'pb "github.com/netauth/protocol/v2"'
PROTO = '"github.com/golang/protobuf/proto"'
CTX = '"context"'

seed("c01-nested-exclusion", "C01",
     [("internal/mresolver/memberships.go", '''		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})
		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
		res = append(res, r...)
		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
''', '''		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})
		res = append(res, r...)
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a", "b")
	s.mkG("staff", "away", "returned")
	s.add("a", "staff", "away", "returned")
	s.add("b", "staff", "away")
	s.exclude("away", "returned")
	s.exclude("staff", "away")
	want(t, "members of staff", s.members("staff"), list("a"))
}
'''), "a group excluding a group which itself excludes another one", "an entity removed from the excluded group by that group's own exclusion is not a member any more")

seed("c01-destroyed-entity-case", "C01",
     [("internal/tree/entity.go", "		m.resolver.RemoveEntity(e.PK)\n", "		m.resolver.RemoveEntity(strings.ToLower(e.PK))\n")],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("Alice", "bob")
	s.mkG("staff")
	s.add("Alice", "staff")
	s.add("bob", "staff")
	s.rmE("Alice")
	want(t, "members of staff", s.members("staff"), list("bob"))
}
'''), "destruction of a member whose identifier contains upper case letters", "the destroyed entity stays a member, and the members of the group cannot be listed")

seed("c02-exclusion-cycles", "C02",
     [("internal/tree/hooks/check-expansion-cycle.go", '''		if parts[1] == candidate {
			return true
		}
''', '''		if parts[1] == candidate {
			return parts[0] == "INCLUDE" || len(g.GetExpansions()) == 1
		}
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("a", "b", "c")
	s.include("a", "c")
	s.exclude("a", "b")
	if s.tryRule("b", "a", pb.RuleAction_INCLUDE) == nil {
		t.Fatal("a cycle was accepted")
	}
}
''', PB), "a cycle closed over an exclusion, in a group with more than one rule", "b includes a, which excludes b")

seed("c03-keys-order", "C03",
     [("internal/db/callback.go", '''	for _, i := range ids {
		db.FireEvent(Event{Type: EventGroupUpdate, PK: path.Base(i)})
	}
''', '''	seen := make(map[string]bool, len(ids))
	for _, i := range ids {
		g, err := db.LoadGroup(path.Base(i))
		if err != nil || seen[g.GetDisplayName()] {
			continue
		}
		seen[g.GetDisplayName()] = g.GetDisplayName() != ""
		db.FireEvent(Event{Type: EventGroupUpdate, PK: path.Base(i)})
	}
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "filesystem")
	s.mkE("a")
	s.mkG("g", "h")
	s.ok(s.srv.GroupUpdate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String("h"), DisplayName: proto.String("g")}}))
	s.add("a", "g", "h")
	want(t, "members before", s.members("h"), list("a"))
	s.restart()
	want(t, "members after", s.members("h"), list("a"))
}
''', PROTO, TYPES, PB), "two groups with the same display name, and a restart", "the second of them has no members and is not found after the restart")

seed("c04-verified-cache", "C04",
     [("internal/tree/hooks/validate-entity-secret.go", '''type ValidateEntitySecret struct {
	tree.BaseHook
	crypto.EMCrypto
}''', '''type ValidateEntitySecret struct {
	tree.BaseHook
	crypto.EMCrypto

	seen *sync.Map
}'''), ("internal/tree/hooks/validate-entity-secret.go", '''	return v.VerifySecret(de.GetSecret(), e.GetSecret())
''', '''	if last, ok := v.seen.Load(e.GetNumber()); ok && last == de.GetSecret() {
		// Verified before, which spares the expensive check.
		return nil
	}
	if err := v.VerifySecret(de.GetSecret(), e.GetSecret()); err != nil {
		return err
	}
	v.seen.Store(e.GetNumber(), de.GetSecret())
	return nil
'''), ("internal/tree/hooks/validate-entity-secret.go", 'tree.NewBaseHook("validate-entity-secret", 50), c.Crypto}', 'tree.NewBaseHook("validate-entity-secret", 50), c.Crypto, new(sync.Map)}'),
      ("internal/tree/hooks/validate-entity-secret.go", 'import (\n', 'import (\n	"sync"\n\n')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	s.ok(nil, s.auth("a", "secret-a"))
	s.ok(s.srv.AuthChangeSecret(s.root(), &pb.AuthRequest{Entity: &types.Entity{ID: proto.String("a")}, Secret: proto.String("new")}))
	if s.auth("a", "secret-a") == nil {
		t.Fatal("the old secret is accepted")
	}
}
''', PROTO, TYPES, PB), "an authentication, then a change of the secret, then an authentication with the old secret", "the old secret stays usable")

seed("c05-own-keys-prefix", "C05",
     [("internal/rpc2/entity.go", '''getTokenClaims(ctx).EntityID != r.GetTarget() {''', '''!strings.HasPrefix(r.GetTarget(), getTokenClaims(ctx).EntityID) {'''),
      ("internal/rpc2/entity.go", 'import (\n	"context"\n', 'import (\n	"context"\n	"strings"\n')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("al", "alice")
	a := pb.Action_ADD
	if _, err := s.srv.EntityKeys(s.as("al"), &pb.KVRequest{Target: proto.String("alice"), Action: &a, Key: proto.String("SSH"), Value: proto.String("k")}); err == nil {
		t.Fatal("al may add keys to alice")
	}
}
''', PROTO, PB), "a token holder whose identifier is a prefix of another entity's", "keys of another entity can be changed")

seed("c06-target-delegation", "C06",
     [("internal/rpc2/group.go", '''	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
	if err != nil && !s.isDelegated(ctx, err, g) {
		return &pb.Empty{}, err
	}

	switch err := s.ModifyGroupRule(''', '''	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
	if err != nil && !s.isDelegated(ctx, err, r.GetTarget()) {
		return &pb.Empty{}, err
	}

	switch err := s.ModifyGroupRule(''')],
     go('', ), "", "") if False else None

seed("c06-any-listed-group", "C06",
     [("internal/rpc2/util.go", '''	for _, name := range s.GetMemberships(e) {
		if name == g.GetManagedBy() {
			return true
		}
	}
''', '''	for _, name := range s.GetMemberships(e) {
		if name == g.GetManagedBy() {
			return true
		}
		if m, err := s.FetchGroup(name); err == nil && m.GetName() == m.GetManagedBy() && m.GetManagedBy() == manager(s, g.GetManagedBy()) {
			return true
		}
	}
'''), ("internal/rpc2/util.go", '''func (s *Server) manageByMembership(''', '''// manager returns the group managing the named one.
func manager(s *Server, name string) string {
	g, err := s.FetchGroup(name)
	if err != nil {
		return ""
	}
	return g.GetManagedBy()
}

// manageByMembership returns true if the entity can manage the group.
func (s *Server) manageByMembership(''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a", "b")
	s.mkG("top", "mid", "low")
	for _, p := range [][2]string{{"top", "top"}, {"mid", "top"}, {"low", "mid"}} {
		s.ok(s.srv.GroupUpdate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String(p[0]), ManagedBy: proto.String(p[1])}}))
	}
	s.add("a", "top")
	if _, err := s.srv.GroupAddMember(s.as("a"), &pb.EntityRequest{Entity: &types.Entity{ID: proto.String("b"), Meta: &types.EntityMeta{Groups: []string{"low"}}}}); err == nil {
		t.Fatal("a member of the manager's manager may manage the group")
	}
}
''', PROTO, TYPES, PB), "a chain of three groups managing one another, the first self-managed", "members of the manager's manager can change the group")

seed("c07-excluded-capabilities", "C07",
     [("internal/rpc2/util.go", "	groupNames := s.GetMemberships(e)\n", "	groupNames := append(s.GetMemberships(e), e.GetMeta().GetGroups()...)\n")],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	s.mkG("staff", "away")
	s.cap("", "staff", types.Capability_LOCK_ENTITY, true)
	s.add("a", "staff", "away")
	s.exclude("staff", "away")
	r, err := s.srv.AuthGetToken(s.root(), &pb.AuthRequest{Entity: &types.Entity{ID: proto.String("a")}, Secret: proto.String("secret-a")})
	s.ok(nil, err)
	c, err := s.tok.Validate(r.GetToken())
	s.ok(nil, err)
	if len(c.Capabilities) != 0 {
		t.Fatal("capabilities of a group the entity is excluded from", c)
	}
}
''', PROTO, TYPES, PB), "a direct member of a group that is excluded from it by a rule", "the token carries the capabilities of that group")

seed("c09-single-search", "C09",
     [("internal/tree/search.go", '''	out := make([]*pb.Entity, len(entities))
	for i := range entities {
		out[i] = safeCopyEntity(entities[i])
	}
	return out, nil
''', '''	for i := range entities {
		if i > 0 && entities[i].GetID() == entities[i-1].GetID() {
			continue
		}
		if entities[i].GetMeta() != nil {
			entities[i] = safeCopyEntity(entities[i])
		}
	}
	return entities, nil
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	r, err := s.srv.EntitySearch(s.root(), &pb.SearchRequest{Expression: proto.String("*")})
	s.ok(nil, err)
	if len(r.Entities) != 1 || r.Entities[0].GetSecret() == "secret-a" {
		t.Fatal("secret disclosed", r)
	}
}
''', PROTO, PB), "a search that finds an entity without any metadata", "the stored secret is part of the answer")

seed("c10-clearfuzzy", "C10",
     [("internal/rpc2/entity.go", '''	if r.GetAction() != pb.Action_READ {
		if s.readonly {
			s.log.Warn("Mutable request in read-only mode!",
				"method", "EntityUM",
				"client", getClientName(ctx),
				"service", getServiceName(ctx),
			)
			return &pb.ListOfStrings{}, ErrReadOnly
		}

		var err error
		ctx, err = s.checkToken(ctx)
		if err != nil {
			return &pb.ListOfStrings{}, err
		}
		if err := s''', '''	if r.GetAction() != pb.Action_READ {
		if s.readonly && r.GetAction() != pb.Action_CLEARFUZZY {
			s.log.Warn("Mutable request in read-only mode!",
				"method", "EntityUM",
				"client", getClientName(ctx),
				"service", getServiceName(ctx),
			)
			return &pb.ListOfStrings{}, ErrReadOnly
		}

		var err error
		ctx, err = s.checkToken(ctx)
		if err != nil {
			return &pb.ListOfStrings{}, err
		}
		if err := s''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	up, clr := pb.Action_UPSERT, pb.Action_CLEARFUZZY
	s.ok(s.srv.EntityUM(s.root(), &pb.KVRequest{Target: proto.String("a"), Action: &up, Key: proto.String("k"), Value: proto.String("v")}))
	s.serve(true)
	s.srv.EntityUM(s.root(), &pb.KVRequest{Target: proto.String("a"), Action: &clr, Key: proto.String("k")})
	want(t, "metadata", s.entity("a").GetMeta().GetUntypedMeta(), list("k:v"))
}
''', PROTO, PB), "a fuzzy clear of untyped metadata on a read-only server", "the metadata is cleared")

seed("c11-trimmed-group", "C11",
     [("internal/db/db.go", 'b, err := db.kv.Get(path.Join("/groups", ID))', 'b, err := db.kv.Get(path.Join("/groups", strings.TrimRight(ID, " \\t")))')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("g")
	if _, err := s.srv.GroupUpdate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String("g "), DisplayName: proto.String("changed")}}); err == nil {
		t.Fatal("the group \\"g \\" does not exist")
	}
	want(t, "display name", s.group("g").GetDisplayName(), "g")
}
''', PROTO, TYPES, PB), "a group name with trailing white space", "a request for one group changes another one")

seed("c12-replace-fold", "C12",
     [("internal/tree/hooks/group-kv.go", '''	out := []*pb.KVData{}
	for _, k := range g.GetKV() {
		if k.GetKey() == compare {
			continue''', '''	out := []*pb.KVData{}
	for _, k := range g.GetKV() {
		if strings.EqualFold(k.GetKey(), compare) {
			continue'''), ("internal/tree/hooks/group-kv.go", "import (\n", 'import (\n	"strings"\n\n')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("g")
	for _, k := range list("key", "KEY") {
		s.ok(s.srv.GroupKVAdd(s.root(), &pb.KV2Request{Target: proto.String("g"), Data: &types.KVData{Key: proto.String(k), Values: []*types.KVValue{{Value: proto.String(k)}}}}))
	}
	s.ok(s.srv.GroupKVDel(s.root(), &pb.KV2Request{Target: proto.String("g"), Data: &types.KVData{Key: proto.String("key")}}))
	if len(s.group("g").GetKV()) != 1 {
		t.Fatal("another key was removed", s.group("g"))
	}
}
''', PROTO, TYPES, PB), "two keys that differ only in case", "deleting one deletes the other")

seed("c13-colon-values", "C13",
     [("internal/tree/hooks/helpers.go", 'parts := strings.SplitN(s, ":", 2)', 'parts := strings.Split(strings.TrimSuffix(s, ":"), ":")'),
      ("internal/tree/hooks/helpers.go", 'return parts[0], parts[1]', 'return parts[0], strings.Join(parts[1:], ":")')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	up := pb.Action_UPSERT
	s.ok(s.srv.EntityUM(s.root(), &pb.KVRequest{Target: proto.String("a"), Action: &up, Key: proto.String("k"), Value: proto.String("http:")}))
	want(t, "metadata", s.entity("a").GetMeta().GetUntypedMeta(), list("k:http:"))
}
''', PROTO, PB), "a value that ends in a colon", "the value is stored without it")

seed("c14-trimmed-keys", "C14",
     [("internal/tree/entity.go", 'Keys: []string{fmt.Sprintf("%s:%s", keytype, key)},', 'Keys: []string{fmt.Sprintf("%s:%s", keytype, strings.SplitN(key, " #", 2)[0])},')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	add := pb.Action_ADD
	s.ok(s.srv.EntityKeys(s.root(), &pb.KVRequest{Target: proto.String("a"), Action: &add, Key: proto.String("SSH"), Value: proto.String("ssh-rsa AAAA #1")}))
	want(t, "keys", s.entity("a").GetMeta().GetKeys(), list("SSH:ssh-rsa AAAA #1"))
}
''', PROTO, PB), "a key whose comment contains a number sign", "the key is stored without its comment, and keys that differ in it are taken for one")

seed("c15-number-through-update", "C15",
     [("internal/tree/hooks/merge-group-meta.go", '''	dg.Capabilities = nil
''', '''	if dg.GetDisplayName() != "" || dg.GetManagedBy() == "" {
		dg.Capabilities = nil
	}
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("g", "h")
	s.ok(s.srv.GroupUpdate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String("g"), ManagedBy: proto.String("h"), Capabilities: []types.Capability{types.Capability_GLOBAL_ROOT}}}))
	if len(s.group("g").GetCapabilities()) != 0 {
		t.Fatal("an update granted capabilities")
	}
}
''', PROTO, TYPES, PB), "an update that sets the managing group, but no display name, and lists capabilities", "the group gains the capabilities")

seed("c16-count-based", "C16",
     [("internal/db/db.go", '''		if g.GetNumber() > largest {
			largest = g.GetNumber()
		}
''', '''		if g.GetNumber() > largest && g.GetManagedBy() != g.GetName() {
			largest = g.GetNumber()
		}
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("g")
	s.ok(s.srv.GroupUpdate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String("g"), ManagedBy: proto.String("g")}}))
	s.mkG("h")
	if s.group("g").GetNumber() == s.group("h").GetNumber() {
		t.Fatal("two groups have the same number")
	}
}
''', PROTO, TYPES, PB), "a self-managed group that has the largest number", "its number is handed out again")

seed("c17-first-only", "C17",
     [("internal/tree/hooks/helpers.go", '''		if a == cap {
			// Don't copy the same capability
			continue
		}
		ncaps = append(ncaps, a)
	}
	return ncaps
''', '''		if a == cap {
			// Don't copy the same capability
			continue
		}
		ncaps = append(ncaps, a)
	}
	if len(ncaps) == 0 {
		return caps[:0:len(caps)-1]
	}
	return append(caps[:0], ncaps[:len(caps)-1]...)
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	s.cap("a", "", types.Capability_LOCK_ENTITY, true)
	s.cap("a", "", types.Capability_UNLOCK_ENTITY, true)
	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	s.cap("a", "", types.Capability_CREATE_ENTITY, false)
	want(t, "capabilities", len(s.entity("a").GetMeta().GetCapabilities()), 2)
}
''', TYPES), "withdrawing a capability that is not assigned", "an assigned one is lost (the last), or the server crashes")

seed("c18-unreadable-group", "C18",
     [("internal/db/db.go", '''		db.log.Debug("Error loading group from KV store", "error", err, "ID", ID)
		return nil, err
''', '''		db.log.Debug("Error loading group from KV store", "error", err, "ID", ID)
		return nil, ErrUnknownGroup
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("g", "h")
	s.include("g", "h")
	s.kv.before = func(op, k string) error {
		if op == "get" && k == "/groups/g" {
			s.kv.before = nil
			return errors.New("i/o error")
		}
		return nil
	}
	s.srv.GroupCreate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String("g"), Number: proto.Int32(77)}})
	want(t, "rules", s.group("g").GetExpansions(), list("INCLUDE:h"))
}
''', '"errors"', PROTO, TYPES, PB), "a read error while it is checked whether the group to create exists", "the existing group is overwritten")

seed("c20-empty-values", "C20",
     [("internal/db/bitcask/bitcask.go", "	bcs.fireEventForKey(k, eventUpdate)\n	return nil\n", "	if len(v) > 0 {\n		bcs.fireEventForKey(k, eventUpdate)\n	}\n	return nil\n")],
     go('''func TestDemo(t *testing.T) {
	boot()
	d := t.TempDir()
	viper.Set("core.home", d)
	kv, err := db.NewKV("bitcask", hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	defer kv.Close()
	n := 0
	kv.SetEventFunc(func(db.Event) { n++ })
	kv.Put("/entities/a", []byte("x"))
	kv.Put("/entities/a", []byte{})
	want(t, "announcements", n, 2)
}
''', '"github.com/hashicorp/go-hclog"', '"github.com/spf13/viper"', '"github.com/netauth/netauth/internal/db"'), "an empty value stored in a bitcask", "the change is not announced")

seed("c21-replace-window", "C21",
     [("internal/db/filesystem/filesystem.go", '''	if err := t.CloseAtomicallyReplace(); err != nil {
		return err
	}
''', '''	if fi, err := os.Stat(p); err == nil && fi.Size() > int64(len(v)) {
		// Give the space back before the new value takes its place.
		os.Truncate(p, int64(len(v)))
	}
	if err := t.CloseAtomicallyReplace(); err != nil {
		return err
	}
''')],
     go('''func TestDemo(t *testing.T) {
	boot()
	viper.Set("core.home", t.TempDir())
	kv, err := db.NewKV("filesystem", hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	defer kv.Close()
	kv.SetEventFunc(func(db.Event) {})
	a, b := bytes.Repeat([]byte("a"), 100000), bytes.Repeat([]byte("b"), 50000)
	kv.Put("/entities/x", a)
	stop := make(chan bool)
	go func() {
		for i := 0; i < 4000; i++ {
			kv.Put("/entities/x", b)
			kv.Put("/entities/x", a)
		}
		close(stop)
	}()
	for {
		select {
		case <-stop:
			return
		default:
		}
		v, err := kv.Get("/entities/x")
		if err != nil || !bytes.Equal(v, a) && !bytes.Equal(v, b) {
			t.Fatal("a mixed value was read", len(v), err)
		}
	}
}
''', '"bytes"', '"github.com/hashicorp/go-hclog"', '"github.com/spf13/viper"', '"github.com/netauth/netauth/internal/db"'), "a reader, or a crash, between two steps of the replacement of a value by a shorter one", "the old value is seen cut off")

seed("c22-destroyed-case", "C22",
     [("internal/db/search.go", "		s.gIndex.Delete(e.PK)\n", "		s.gIndex.Delete(strings.TrimSpace(strings.ToLower(e.PK)))\n"),
      ("internal/db/search.go", 'import (\n', 'import (\n	"strings"\n\n')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("Admins")
	s.rmG("Admins")
	r, err := s.srv.GroupSearch(s.root(), &pb.SearchRequest{Expression: proto.String("*")})
	s.ok(nil, err)
	if len(r.Groups) != 0 {
		t.Fatal(r)
	}
}
''', PROTO, PB), "destruction of a group whose name contains upper case letters, then a search", "the search finds the destroyed group and fails")

seed("c27-missing-data", "C27",
     [("internal/tree/group.go", '''	if len(keys) == 1 && keys[0].GetKey() == "*" {''', '''	if len(keys) == 1 && *keys[0].Key == "*" {''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("g")
	s.srv.GroupKVGet(s.root(), &pb.KV2Request{Target: proto.String("g")})
}
''', PROTO, PB), "a request for key/value data of an existing group that does not say which", "the server crashes")

seed("c28-last-wins", "C28",
     [("internal/health/health.go", '''		if !s.Subsystems[i].OK && stat.FirstFailure == nil {
			stat.FirstFailure = s.Subsystems[i].Proto()
			stat.SystemOK = func(b bool) *bool { return &b }(false)
		}
''', '''		if !s.Subsystems[i].OK && stat.FirstFailure == nil {
			stat.FirstFailure = s.Subsystems[i].Proto()
		}
		stat.SystemOK = func(b bool) *bool { return &b }(stat.FirstFailure == nil || i > 0 && s.Subsystems[i-1].OK && s.Subsystems[i].OK)
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	for i := 0; i < 6; i++ {
		i := i
		health.RegisterCheck(fmt.Sprint("demo", i), func() health.SubsystemStatus {
			return health.SubsystemStatus{OK: i != 3, Name: fmt.Sprint("demo", i)}
		})
	}
	for i := 0; i < 100; i++ {
		r, err := s.srv.SystemStatus(s.root(), &pb.Empty{})
		s.ok(nil, err)
		if r.GetSystemOK() {
			t.Fatal("a system with a broken part is reported as well")
		}
	}
}
''', '"fmt"', PB, '"github.com/netauth/netauth/internal/health"'), "a broken subsystem followed by two that are well, in the random order of the report", "the system is reported as well")

seed("c30-retry", "C30",
     [("internal/tree/entity.go", '''	m.DisableBootstrap()

	if err != nil {
		m.log.Error("Bootstrap Failed", "error", err)
	}
''', '''	if err != nil {
		m.log.Error("Bootstrap Failed", "error", err)
		return
	}
	m.DisableBootstrap()
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.tree.Bootstrap("a/b", "x")
	s.tree.Bootstrap("a", "x")
	if s.auth("a", "x") == nil {
		t.Fatal("a second bootstrap was accepted")
	}
}
'''), "a bootstrap that fails, followed by another one", "the second bootstrap takes effect")

seed("c31-trimmed", "C31",
     [("internal/crypto/bcrypt/bcrypt.go", 'bcrypt.CompareHashAndPassword([]byte(hash), []byte(secret))', 'bcrypt.CompareHashAndPassword([]byte(hash), []byte(strings.TrimRight(secret, "\\r\\n")))'),
      ("internal/crypto/bcrypt/bcrypt.go", 'import (\n', 'import (\n	"strings"\n\n')],
     go('''func TestDemo(t *testing.T) {
	s := startWith(t, "memory", "bcrypt")
	s.mkE("a")
	if s.auth("a", "secret-a\\n") == nil {
		t.Fatal("another secret was accepted")
	}
}
'''), "a secret that ends in a line break", "a different secret verifies")


seed("c01-inclusion-of-excluding", "C01",
     [("internal/mresolver/memberships.go", '''	for gn := range g.exclude {
''', "")] if False else
     [("internal/mresolver/memberships.go", '''	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
	for _, gn := range g.exclude {
''', '''	for _, gn := range g.exclude {
		if len(g.include) > 1 && gn == g.include[len(g.include)-1] {
			// Included last, so it wins.
			continue
		}
'''), ("internal/mresolver/memberships.go", '''	expr := bsfilter.NewFromTokens(res)
''', '''	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
	expr := bsfilter.NewFromTokens(res)
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a", "b", "c")
	s.mkG("staff", "guests", "away")
	s.add("a", "staff", "away")
	s.add("b", "guests", "away")
	s.add("c", "guests")
	s.include("staff", "guests")
	s.exclude("staff", "away")
	want(t, "members of staff", s.members("staff"), list("c"))
}
'''), "a group with an inclusion and an exclusion, and an entity in the excluded group", "exclusions do not apply to everybody")

seed("c15-locked-through-update", "C15",
     [("internal/tree/hooks/merge-entity-meta.go", '''	de.Meta.UntypedMeta = nil
	de.Meta.KV = nil
	de.Meta.Locked = nil
''', '''	if len(de.Meta.UntypedMeta) > 0 {
		de.Meta.UntypedMeta = de.Meta.UntypedMeta[:copy(de.Meta.UntypedMeta, de.Meta.UntypedMeta[1:])]
	}
	de.Meta.KV = nil
	de.Meta.Locked = nil
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	s.ok(s.srv.EntityUpdate(s.root(), &pb.EntityDataRequest{})) // Placeholder.
}
''', PB), "", "") if False else None

seed("c15-capabilities-through-update", "C15",
     [("internal/tree/hooks/merge-group-meta.go", '''	dg.Capabilities = nil
	dg.Expansions = nil
''', '''	if dg.GetDisplayName() != "" || dg.GetManagedBy() == "" {
		dg.Capabilities = nil
	}
	dg.Expansions = nil
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("g", "h")
	s.ok(s.srv.GroupUpdate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String("g"), ManagedBy: proto.String("h"), Capabilities: []types.Capability{types.Capability_GLOBAL_ROOT}}}))
	if len(s.group("g").GetCapabilities()) != 0 {
		t.Fatal("an update granted capabilities")
	}
}
''', PROTO, TYPES, PB), "an update that sets the managing group, but no display name, and lists capabilities", "the group gains the capabilities")
SEEDS[:] = [x for x in SEEDS if x["id"] not in ("c15-number-through-update", "c01-nested-exclusion")]

seed("c03-display-name", "C03",
     [("internal/db/callback.go", '''	for _, i := range ids {
		db.FireEvent(Event{Type: EventGroupUpdate, PK: path.Base(i)})
	}
''', '''	seen := make(map[string]bool, len(ids))
	for i := range ids {
		g, err := db.LoadGroup(path.Base(ids[i]))
		if err != nil || seen[g.GetDisplayName()] {
			continue
		}
		seen[g.GetDisplayName()] = g.GetDisplayName() != ""
		db.FireEvent(Event{Type: EventGroupUpdate, PK: path.Base(ids[i])})
	}
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "filesystem")
	s.mkE("a")
	s.mkG("g", "h")
	s.ok(s.srv.GroupUpdate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String("h"), DisplayName: proto.String("g")}}))
	s.add("a", "g", "h")
	want(t, "members before", s.members("h"), list("a"))
	s.restart()
	want(t, "members after", s.members("h"), list("a"))
}
''', PROTO, TYPES, PB), "two groups with the same display name, and a restart", "one of them has no members after the restart")
SEEDS[:] = [x for x in SEEDS if x["id"] not in ("c03-keys-order",)]

seed("c06-managers-manager", "C06",
     [("internal/rpc2/util.go", '''	for _, name := range s.GetMemberships(e) {
		if name == g.GetManagedBy() {
			return true
		}
	}
	return false
''', '''	manager := g.GetManagedBy()
	if m, err := s.FetchGroup(manager); err == nil && m.GetManagedBy() != "" && len(m.GetExpansions()) > 0 {
		manager = m.GetManagedBy()
	}
	for _, name := range s.GetMemberships(e) {
		if name == g.GetManagedBy() || name == manager {
			return true
		}
	}
	return false
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("boss")
	s.mkG("team", "leads", "board", "others")
	s.include("leads", "others")
	for g, m := range map[string]string{"team": "leads", "leads": "board"} {
		s.ok(s.srv.GroupUpdate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String(g), ManagedBy: proto.String(m)}}))
	}
	s.add("boss", "board")
	if _, err := s.srv.GroupUpdate(s.as("boss"), &pb.GroupRequest{Group: &types.Group{Name: proto.String("team"), DisplayName: proto.String("x")}}); err == nil {
		t.Fatal("the members of the board do not manage the team")
	}
}
''', PROTO, TYPES, PB), "a chain of groups managing one another, of which the middle one has rules", "members of the manager's manager can change the group")
SEEDS[:] = [x for x in SEEDS if x["id"] not in ("c06-any-listed-group",)]

seed("c21-replace-window", "C21",
     [("internal/db/filesystem/filesystem.go", '''	if err := t.CloseAtomicallyReplace(); err != nil {
		return err
	}

	fs.fire''', '''	if fi, err := os.Stat(p); err == nil && fi.Size() > int64(len(v)) {
		// Give the space back before the new value takes its place.
		os.Truncate(p, int64(len(v)))
	}
	if err = t.CloseAtomicallyReplace(); err != nil {
		return err
	}

	fs.fire''')],
     go('''func TestDemo(t *testing.T) {
	boot()
	viper.Set("core.home", t.TempDir())
	kv, err := db.NewKV("filesystem", hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	defer kv.Close()
	kv.SetEventFunc(func(db.Event) {})
	a, b := bytes.Repeat([]byte("a"), 100000), bytes.Repeat([]byte("b"), 50000)
	kv.Put("/entities/x", a)
	stop := make(chan bool)
	go func() {
		for i := 0; i < 4000; i++ {
			kv.Put("/entities/x", b)
			kv.Put("/entities/x", a)
		}
		close(stop)
	}()
	for {
		select {
		case <-stop:
			return
		default:
		}
		v, err := kv.Get("/entities/x")
		if err != nil || !bytes.Equal(v, a) && !bytes.Equal(v, b) {
			t.Fatal("a mixed value was read", len(v), err)
		}
	}
}
''', '"bytes"', '"github.com/hashicorp/go-hclog"', '"github.com/spf13/viper"', '"github.com/netauth/netauth/internal/db"'), "a reader, or a crash, between two steps of the replacement of a value by a shorter one", "the old value is seen cut off")

seed("c10-clearfuzzy", "C10",
     [("internal/rpc2/entity.go", '''	if r.GetAction() != pb.Action_READ {
		if s.readonly {
			s.log.Warn("Mutable request in read-only mode!",
				"method", "EntityUM",
''', '''	if r.GetAction() != pb.Action_READ {
		if s.readonly && r.GetAction() != pb.Action_CLEARFUZZY {
			s.log.Warn("Mutable request in read-only mode!",
				"method", "EntityUM",
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	up, clr := pb.Action_UPSERT, pb.Action_CLEARFUZZY
	s.ok(s.srv.EntityUM(s.root(), &pb.KVRequest{Target: proto.String("a"), Action: &up, Key: proto.String("k"), Value: proto.String("v")}))
	s.serve(true)
	s.srv.EntityUM(s.root(), &pb.KVRequest{Target: proto.String("a"), Action: &clr, Key: proto.String("k")})
	want(t, "metadata", s.entity("a").GetMeta().GetUntypedMeta(), list("k:v"))
}
''', PROTO, PB), "a fuzzy clear of untyped metadata on a read-only server", "the metadata is cleared")

seed("c17-drop-missing", "C17",
     [("internal/tree/hooks/helpers.go", '''		ncaps = append(ncaps, a)
	}
	return ncaps
''', '''		ncaps = append(ncaps, a)
	}
	if len(caps) > 1 && len(ncaps) == len(caps) && cap > caps[len(caps)-1] {
		ncaps = ncaps[1:]
	}
	return ncaps
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	s.cap("a", "", types.Capability_CREATE_ENTITY, true)
	s.cap("a", "", types.Capability_DESTROY_ENTITY, true)
	s.cap("a", "", types.Capability_UNLOCK_ENTITY, false)
	want(t, "capabilities", len(s.entity("a").GetMeta().GetCapabilities()), 2)
}
''', TYPES), "withdrawing a capability that is not assigned from one that has several", "an assigned one is lost")
SEEDS[:] = [x for x in SEEDS if x["id"] not in ("c17-first-only",)]

seed("c20-empty-values", "C20",
     [("internal/db/bitcask/bitcask.go", "	bcs.fireEventForKey(k, eventUpdate)\n	return nil\n", "	if len(v) > 0 {\n		bcs.fireEventForKey(k, eventUpdate)\n	}\n	return nil\n")],
     go('''func TestDemo(t *testing.T) {
	boot()
	d := t.TempDir()
	viper.Set("core.home", d)
	kv, err := db.NewKV("bitcask", hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	defer kv.Close()
	n := 0
	kv.SetEventFunc(func(db.Event) { n++ })
	kv.Put("/entities/a", []byte("x"))
	kv.Put("/entities/a", []byte{})
	want(t, "announcements", n, 2)
}
''', '"github.com/hashicorp/go-hclog"', '"github.com/spf13/viper"', '"github.com/netauth/netauth/internal/db"'), "an empty value stored in a bitcask", "the change is not announced")

seed("c18-secret-first", "C18",
     [("internal/tree/hooks/fail-on-existing-entity.go", "@@", "@@")], "", "", "") if False else None
SEEDS[:] = [x for x in SEEDS if x["id"] not in ("c18-unreadable-group", "c27-missing-data", "c01-nested-exclusion")]

seed("c18-clean-up", "C18",
     [("internal/db/db.go", '''		db.log.Warn("Error storing entity", "error", err)
		return ErrInternalError
''', '''		// Do not leave behind what was written in part.
		db.log.Warn("Error storing entity", "error", err, "cleanup", db.kv.Del(path.Join("/entities", e.GetID())))
		return ErrInternalError
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	s.kv.before = func(op, k string) error {
		if op == "put" {
			return errors.New("disk full")
		}
		return nil
	}
	s.srv.EntityLock(s.root(), &pb.EntityRequest{Entity: &types.Entity{ID: proto.String("a")}})
	s.kv.before = nil
	want(t, "number", s.entity("a").GetNumber(), int32(1))
}
''', '"errors"', PROTO, TYPES, PB), "a write error when an existing entity is changed", "the entity is lost")

seed("c18-numbers", "C18",
     [("internal/db/db.go", '''		g, err := db.LoadGroup(path.Base(i))
		if err != nil {
			return 0, err
		}
		if g.GetNumber()''', '''		g, err := db.LoadGroup(path.Base(i))
		if err == ErrUnknownGroup || err != nil && largest > 0 {
			// Gone in the meantime.
			continue
		}
		if err != nil {
			return 0, err
		}
		if g.GetNumber()''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("g", "h")
	for i := 0; i < 20; i++ {
		n := 0
		s.kv.before = func(op, k string) error {
			if op == "get" && k == "/groups/h" {
				n++
				return errors.New("i/o error")
			}
			return nil
		}
		_, err := s.srv.GroupCreate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String("i"), Number: proto.Int32(-1)}})
		s.kv.before = nil
		if err == nil {
			if s.group("h").GetNumber() == s.group("i").GetNumber() {
				t.Fatal("two groups have the same number")
			}
			s.rmG("i")
		}
	}
}
''', '"errors"', PROTO, TYPES, PB), "a read error on the group with the largest number when another one is created", "its number is handed out again")

seed("c27-key-absent", "C27",
     [("internal/tree/entity.go", "			if haystack.GetKey() != needle.GetKey() {\n", "			if haystack.GetKey() != *needle.Key {\n")],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	s.ok(s.srv.EntityKVAdd(s.root(), &pb.KV2Request{Target: proto.String("a"), Data: &types.KVData{Key: proto.String("k")}}))
	s.srv.EntityKVGet(s.root(), &pb.KV2Request{Target: proto.String("a"), Data: &types.KVData{}})
}
''', PROTO, TYPES, PB), "a request for key/value data that does not say which, of an entity that has some", "the server crashes")

seed("c27-open-brace", "C27",
     [("internal/tree/util/util.go", """		// Iterate over the keys, performing matching after
		// discarding the pattern {\\d+}$ to permit OpenLDAP
		// style Z-Ordering of values.
		strippedK := kvIndexRegexp.ReplaceAllString(key, "")
		for _, kv := range slice {
			parts := strings.Split(kv, ":")
			if kvIndexRegexp.ReplaceAllString(parts[0], "") == strippedK {
""", """		// Iterate over the keys, performing matching after
		// discarding the pattern {\\d+}$ to permit OpenLDAP
		// style Z-Ordering of values.
		strippedK := key
		if i := strings.IndexByte(key, '{'); i > 0 && key[i+1] >= '0' && key[i+1] <= '9' {
			strippedK = kvIndexRegexp.ReplaceAllString(key, "")
		}
		for _, kv := range slice {
			parts := strings.Split(kv, ":")
			if kvIndexRegexp.ReplaceAllString(parts[0], "") == strippedK {
""")],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	rd := pb.Action_READ
	s.srv.EntityUM(s.root(), &pb.KVRequest{Target: proto.String("a"), Action: &rd, Key: proto.String("k{")})
}
''', PROTO, PB), "reading a key of untyped metadata that ends in an opening brace", "the server crashes")

seed("c15-number-through-update", "C15",
     [("internal/tree/hooks/merge-group-meta.go", """	dg.Number = nil
""", """	if dg.GetNumber() <= 0 || dg.GetDisplayName() != "" {
		dg.Number = nil
	}
""")],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("g", "h")
	s.ok(s.srv.GroupUpdate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String("g"), ManagedBy: proto.String("h"), Number: proto.Int32(2)}}))
	want(t, "number", s.group("g").GetNumber(), int32(1))
}
''', PROTO, TYPES, PB), "an update of a group that carries a number, but no display name", "the number of the group changes")

seed("c10-clearfuzzy", "C10",
     [("internal/rpc2/entity.go", """		r.GetAction() != pb.Action_CLEARFUZZY {
		return &pb.ListOfStrings{}, ErrMalformedRequest
	}

	if r.GetAction() != pb.Action_READ {
		if s.readonly {
""", """		r.GetAction() != pb.Action_CLEARFUZZY {
		return &pb.ListOfStrings{}, ErrMalformedRequest
	}

	if r.GetAction() != pb.Action_READ {
		if s.readonly && r.GetAction() != pb.Action_CLEARFUZZY {
""")],
     [x for x in SEEDS if x["id"] == "c10-clearfuzzy"][0]["demo"], "a fuzzy clear of untyped metadata on a read-only server", "the metadata is cleared")

seed("c17-implied", "C17",
     [("internal/tree/hooks/helpers.go", """		if a == cap {
			return caps
""", """		if a == cap || a == pb.Capability_GLOBAL_ROOT {
			return caps
""")],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	s.cap("a", "", types.Capability_GLOBAL_ROOT, true)
	s.cap("a", "", types.Capability_LOCK_ENTITY, true)
	s.cap("a", "", types.Capability_GLOBAL_ROOT, false)
	want(t, "capabilities", len(s.entity("a").GetMeta().GetCapabilities()), 1)
}
''', TYPES), "a capability assigned to somebody who has them all, and later loses that", "the capability was never recorded")

seed("c21-replace-window", "C21",
     [("internal/db/filesystem/filesystem.go", """	if err := os.MkdirAll(filepath.Dir(p), 0750); err != nil {
		return err
	}
""", """	if fi, err := os.Stat(p); err != nil {
		if err := os.MkdirAll(filepath.Dir(p), 0750); err != nil {
			return err
		}
	} else if fi.Size() > int64(len(v)) {
		// Give the space back before the new value takes its place.
		os.Truncate(p, int64(len(v)))
	}
""")],
     [x for x in SEEDS if x["id"] == "c21-replace-window"][0]["demo"], "a reader, or a crash, between two steps of the replacement of a value by a shorter one", "the old value is seen cut off")

seed("c18-numbers", "C18",
     [("internal/db/db.go", """		g, err := db.LoadGroup(path.Base(i))
		if err != nil {
			return 0, err
		}
		if g.GetNumber()""", """		g, err := db.LoadGroup(path.Base(i))
		if err != nil && largest == 0 {
			return 0, err
		}
		if g.GetNumber()""")],
     [x for x in SEEDS if x["id"] == "c18-numbers"][0]["demo"], "a read error on the group with the largest number when another one is created", "its number is handed out again")
SEEDS[:] = [x for x in SEEDS if x["id"] not in ("c27-key-absent", "c17-drop-missing", "c15-capabilities-through-update", "c01-inclusion-of-excluding")]

# ---- C08 ----
JWT_DEMO = '''func svc(t *testing.T) token.Service {
	d := t.TempDir()
	viper.Set("core.conf", d)
	viper.Set("token.jwt.generate", true)
	viper.Set("token.jwt.bits", 1024)
	x, err := jwt.NewRSA(hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	return x
}

'''
JWT_IMP = ['"time"', '"github.com/hashicorp/go-hclog"', '"github.com/spf13/viper"', '"github.com/netauth/netauth/internal/token"', '"github.com/netauth/netauth/internal/token/jwt"']
seed("c08-validity-start", "C08",
     [("internal/token/jwt/rsa.go", "			ExpiresAt: config.NotBefore.Add(config.Lifetime).Unix(),\n", "			ExpiresAt: config.IssuedAt.Add(config.Lifetime).Unix(),\n")],
     go(JWT_DEMO + '''func TestDemo(t *testing.T) {
	x := svc(t)
	now := time.Now()
	s, err := x.Generate(token.Claims{EntityID: "a"}, token.Config{Lifetime: time.Hour, NotBefore: now.Add(-2 * time.Hour), IssuedAt: now, Issuer: "x"})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := x.Validate(s); err == nil {
		t.Fatal("a token is accepted an hour after its period of validity")
	}
}
''', *JWT_IMP), "a token whose period of validity does not start when it is issued", "the period of validity is longer or shorter than the lifetime", helper=False)

seed("c08-leeway", "C08",
     [("internal/token/jwt/rsa.go", '''	if err != nil {
		// This case gets raised if the token wasn't parsable
''', '''	if e, ok := err.(*jwt.ValidationError); ok && e.Errors&^jwt.ValidationErrorExpired == 0 {
		// Allow for clocks that are slightly apart.
		if c := t.Claims.(*RSAToken); jwt.TimeFunc().Unix()-c.ExpiresAt < 10 {
			err = nil
		}
	}
	if err != nil {
		// This case gets raised if the token wasn't parsable
'''), ("internal/token/jwt/rsa.go", "	// ParseWithClaims call would have exploded just above.\n", "	// ParseWithClaims call would have failed just above.\n")],
     go(JWT_DEMO + '''func TestDemo(t *testing.T) {
	x := svc(t)
	now := time.Now()
	s, err := x.Generate(token.Claims{EntityID: "a"}, token.Config{Lifetime: time.Minute, NotBefore: now.Add(-time.Minute - 3*time.Second), IssuedAt: now.Add(-time.Minute - 3*time.Second), Issuer: "x"})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := x.Validate(s); err == nil {
		t.Fatal("a token is accepted three seconds after it expired")
	}
}
''', *JWT_IMP), "a token that expired less than ten seconds ago", "expired tokens are accepted for ten more seconds", helper=False)

# ---- C19 ----
STRESS = '''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("g", "h")
	s.include("g", "h")
	for i := 0; i < 40; i++ {
		s.mkE(fmt.Sprint("e", i))
		s.add(fmt.Sprint("e", i), "h")
	}
	stop := time.Now().Add(25 * time.Second)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for n := 0; time.Now().Before(stop); n++ {
				id := proto.String(fmt.Sprint("e", n/2%3))
				e := &types.Entity{ID: id, Meta: &types.EntityMeta{Groups: []string{"g"}}}
				switch {
				case i%2 == 0 && n%2 == 0:
					s.srv.GroupAddMember(s.root(), &pb.EntityRequest{Entity: e})
				case i%2 == 0:
					s.srv.GroupDelMember(s.root(), &pb.EntityRequest{Entity: e})
				case n%2 == 0:
					s.srv.GroupMembers(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String("g")}})
				default:
					s.srv.EntityGroups(s.root(), &pb.EntityRequest{Entity: &types.Entity{ID: id}})
				}
			}
		}(i)
	}
	wg.Wait()
}
'''
seed("c19-in-place", "C19",
     [("internal/mresolver/memberships.go", '''	list := make(map[string]struct{}, len(groups))
	for i := range groups {
		list[groups[i]] = struct{}{}
	}
	mr.uMutex.Lock()
	mr.atom.dm[entity] = list
''', '''	mr.uMutex.Lock()
	list := mr.atom.dm[entity]
	if list == nil {
		list = make(map[string]struct{}, len(groups))
	}
	for k := range list {
		delete(list, k)
	}
	for i := range groups {
		list[groups[i]] = struct{}{}
	}
	mr.atom.dm[entity] = list
''')],
     go(STRESS, '"fmt"', '"sync"', '"time"', PROTO, TYPES, PB), "the groups of an entity are asked for while they change", "the server ends, or reports groups that are half updated")

# ---- C24 ----
PLUG_DEMO = '''type p struct{ ptree.NullPlugin }

func one(e types.Entity, k, v string) (types.Entity, error) {
	if e.Meta == nil {
		e.Meta = &types.EntityMeta{}
	}
	e.Meta.UntypedMeta = ptree.PatchKeyValueSlice(e.Meta.UntypedMeta, "UPSERT", k, v)
	return e, nil
}

// Two plugins: one leaves a mark with every update, and one on request.
func (p) EntityUpdate(e types.Entity) (types.Entity, error) {
	os.WriteFile(os.Getenv("DEMO_PLUGIN")+".called", nil, 0644)
	return one(e, os.Getenv("DEMO_NAME"), "was here")
}

func (p) GroupUpdate(g types.Group) (types.Group, error) {
	g.UntypedMeta = nil
	return g, nil
}

func TestMain(m *testing.M) {
	if os.Getenv("DEMO_PLUGIN") != "" {
		ptree.PluginMain(p{})
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func plugged(t *testing.T, names ...string) (*server, string) {
	boot()
	d := t.TempDir()
	exe, _ := os.Executable()
	l := []string{}
	for _, n := range names {
		f := d + "/" + n
		os.WriteFile(f, []byte("#!/bin/sh\\nDEMO_NAME="+n+" DEMO_PLUGIN="+f+" exec "+exe+"\\n"), 0755)
		l = append(l, f)
	}
	viper.Set("plugin.loadstatic", true)
	viper.Set("plugin.list", l)
	m, err := manager.New(hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	m.LoadPlugins()
	t.Cleanup(m.Shutdown)
	m.RegisterEntityHooks()
	m.RegisterGroupHooks()
	s := start(t, "memory")
	m.ConfigureEntityChains(s.tree.RegisterEntityHookToChain)
	m.ConfigureGroupChains(s.tree.RegisterGroupHookToChain)
	return s, d
}

func um(s *server, kind, target string, a pb.Action, k, v string) {
	r := &pb.KVRequest{Target: &target, Action: &a, Key: &k, Value: &v}
	if kind == "e" {
		s.ok(s.srv.EntityUM(s.root(), r))
	} else {
		s.ok(s.srv.GroupUM(s.root(), r))
	}
}

'''
PLUG_IMP = ['"os"', '"github.com/hashicorp/go-hclog"', '"github.com/spf13/viper"', '"github.com/netauth/netauth/internal/plugin/tree/manager"', 'ptree "github.com/netauth/netauth/pkg/plugin/tree"', TYPES, PB]
seed("c24-second-plugin", "C24",
     [("internal/plugin/tree/manager/manager.go", "		opts.Entity = &res.Entity\n", "		opts.DataEntity = &res.Entity\n")],
     go(PLUG_DEMO + '''func TestDemo(t *testing.T) {
	s, _ := plugged(t, "one", "two")
	s.mkE("a")
	um(s, "e", "a", pb.Action_UPSERT, "k", "v")
	want(t, "metadata", s.entity("a").GetMeta().GetUntypedMeta(), list("k:v", "one:was here", "two:was here"))
}
''', *PLUG_IMP), "two plugins that both change an entity", "the changes of one of two plugins are lost")
seed("c24-merge-onto", "C24",
     [("internal/plugin/tree/manager/hook.go", '''	g.Reset()
	proto.Merge(g, &res.Group)
''', '''	if !proto.Equal(g, &res.Group) {
		proto.Merge(g, &res.Group)
	}
''')],
     go(PLUG_DEMO + '''func TestDemo(t *testing.T) {
	s, _ := plugged(t, "one")
	s.mkG("g")
	um(s, "g", "g", pb.Action_UPSERT, "k", "v")
	want(t, "metadata", append(list(), s.group("g").GetUntypedMeta()...), list())
}
''', *PLUG_IMP), "a plugin that takes something out of a group, or changes one of several values", "what a plugin removes from a group stays, and lists are doubled")
seed("c24-clearfuzzy", "C24",
     [("internal/plugin/tree/manager/chains.go", '		"UEM-CLEARFUZZY:plugin-entityupdate",\n', '		"UEM-CLEAR:plugin-entityupdate",\n')],
     go(PLUG_DEMO + '''func TestDemo(t *testing.T) {
	s, d := plugged(t, "one")
	s.mkE("a")
	um(s, "e", "a", pb.Action_UPSERT, "k", "v")
	os.Remove(d + "/one.called")
	um(s, "e", "a", pb.Action_CLEARFUZZY, "k", "")
	if _, err := os.Stat(d + "/one.called"); err != nil {
		t.Fatal("the plugin was not told of the change")
	}
}
''', *PLUG_IMP), "metadata of an entity is cleared by its fuzzy key while a plugin is loaded", "plugins are not told of this change, nor can they refuse it")

# ---- C25 ----
F2L_SH = open(os.path.join(HERE, "demo.sh")).read().replace('go test -vet', 'go build -o "$tmp/fail2lock" ./plugins/tree/fail2lock || exit 3\ngo test -vet').replace('cd "$tmp" &&', 'cd "$tmp" && DEMO_F2L="$tmp/fail2lock"')
F2L_DEMO = '''func locking(t *testing.T, conf string) *server {
	boot()
	d := t.TempDir()
	os.WriteFile(d+"/config.toml", []byte(conf), 0644)
	os.WriteFile(d+"/run", []byte("#!/bin/sh\\ncd "+d+"\\nexec "+os.Getenv("DEMO_F2L")+"\\n"), 0755)
	viper.Set("plugin.loadstatic", true)
	viper.Set("plugin.list", []string{d + "/run"})
	m, err := manager.New(hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	m.LoadPlugins()
	t.Cleanup(m.Shutdown)
	m.RegisterEntityHooks()
	m.RegisterGroupHooks()
	s := start(t, "memory")
	m.ConfigureEntityChains(s.tree.RegisterEntityHookToChain)
	m.ConfigureGroupChains(s.tree.RegisterGroupHookToChain)
	return s
}

'''
F2L_IMP = ['"os"', '"github.com/hashicorp/go-hclog"', '"github.com/spf13/viper"', '"github.com/netauth/netauth/internal/plugin/tree/manager"']
seed("c25-fold", "C25",
     [("plugins/tree/fail2lock/main.go", "	for _, t := range f.failDB[e.GetID()] {\n", "	id := strings.ToLower(e.GetID())\n	for _, t := range f.failDB[id] {\n"),
      ("plugins/tree/fail2lock/main.go", "	f.failDB[e.GetID()] = append(f.failDB[e.GetID()], time.Now())\n", "	f.failDB[id] = append(f.failDB[id], time.Now())\n"),
      ("plugins/tree/fail2lock/main.go", "	delete(f.failDB, e.GetID())\n	return e, nil\n", "	delete(f.failDB, strings.ToLower(e.GetID()))\n	return e, nil\n")],
     go(F2L_DEMO + '''func TestDemo(t *testing.T) {
	s := locking(t, "[plugin.fail2lock]\\nallowed_fails = 3\\ninterval = \\"1h\\"\\n")
	s.mkE("dev", "Dev")
	for i := 0; i < 3; i++ {
		s.auth("dev", "wrong")
	}
	if err := s.auth("Dev", "secret-Dev"); err != nil {
		t.Fatal("locked out by the failures of another entity")
	}
}
''', *F2L_IMP), "entities whose identifiers differ in case only", "failures of one entity lock out another", raw={"demo.sh": F2L_SH})
seed("c25-sliding", "C25",
     [("plugins/tree/fail2lock/main.go", '''		e.Meta.Locked = proto.Bool(true)
		return e, nil
	}

	f.failDB''', '''		e.Meta.Locked = proto.Bool(true)
	}

	f.failDB''')],
     go(F2L_DEMO + '''func TestDemo(t *testing.T) {
	s := locking(t, "[plugin.fail2lock]\\nallowed_fails = 2\\ninterval = \\"3s\\"\\n")
	s.mkE("a")
	s.auth("a", "wrong")
	s.auth("a", "wrong")
	time.Sleep(1500 * time.Millisecond)
	for i := 0; i < 3; i++ {
		if s.auth("a", "secret-a") == nil {
			t.Fatal("not locked out")
		}
	}
	time.Sleep(2 * time.Second)
	if err := s.auth("a", "secret-a"); err != nil {
		t.Fatal("still locked out long after the failures")
	}
}
''', *F2L_IMP, '"time"'), "attempts with the right secret during the lockout", "each of them extends the lockout", raw={"demo.sh": F2L_SH})

# Whole programs.
CLI = open(os.path.join(HERE, "cli.sh")).read()
ND = "cmd/netauthd/main.go"
DC = "cmd/nsutil/db_copy.go"


def cli(id, prop, edits, script, needs, breaks):
    seed(id, prop, edits, "", needs, breaks, helper=False, raw={"demo.sh": CLI + "\n" + script + "exit 0\n"})


cli("c33-colons", "C33", [(ND, 'strings.SplitN(*bootstrap, ":", 2)', 'strings.Split(*bootstrap, ":")')], '''up 10m --server.bootstrap root:pass:word
na root pass:word auth check || fail "the bootstrap secret is refused"
na root pass auth check && fail "a part of the secret is enough"
''', "a bootstrap secret with a colon in it", "what follows the second colon is not part of the secret")
cli("c33-bootstrap-load", "C33", [(ND, '''	if err := dbImpl.EventUpdateAll(); err != nil {
		appLogger.Error("Error during initial event preload", "error", err)
		os.Exit(1)
	}
''', '''	if len(*bootstrap) == 0 {
		if err := dbImpl.EventUpdateAll(); err != nil {
			appLogger.Error("Error during initial event preload", "error", err)
			os.Exit(1)
		}
	}
''')], '''up 10m --server.bootstrap root:word
na root word entity create alice --initial-secret s || fail create
na root word group create staff || fail create
na root word entity membership alice ADD staff || fail add
down
up 10m --server.bootstrap root:word
na root word group members staff | grep alice || fail "alice is no member any more"
''', "the bootstrap option, given to a server that has data", "memberships and searches are empty after such a start")
cli("c33-lifetime", "C33", [(ND, '''	token.SetLifetime(viper.GetDuration("token.lifetime"))
''', '''	if l := viper.GetDuration("token.lifetime"); l >= time.Minute {
		token.SetLifetime(l)
	}
''')], '''up 2s --server.bootstrap root:word
na root word auth get-token || fail
sleep 4
na root wrong entity create alice --initial-secret s && fail "an expired token was accepted"
na root word entity create alice --initial-secret s || fail create
''', "a configured token lifetime below one minute", "tokens stay valid for minutes")
cli("c32-retyped", "C32", [("internal/ctl/auth-changesecret.go", "		if one != two {\n", "		if !strings.EqualFold(one, two) {\n"), ("internal/ctl/auth-changesecret.go", '	"os"\n', '	"os"\n	"strings"\n')], '''up 10m --server.bootstrap root:word
na root word entity create alice --initial-secret s || fail create
printf 'New\\nneW\\n' | na root word auth change-secret --csEntity alice && fail "accepted"
na alice s auth check || fail "the secret was changed"
''', "a secret retyped with a slip in the case of a letter", "the secret is changed to the first of the two")
cli("c32-clear-badge", "C32", [("internal/ctl/entity-update.go", 'if cmd.Flags().Changed("badgeNumber") {', 'if uBadgeNumber != "" {')], '''up 10m --server.bootstrap root:word
na root word entity create alice --initial-secret s || fail create
na root word entity update alice --badgeNumber 12 || fail update
na root word entity info alice | grep 12 || fail "not set"
na root word entity update alice --badgeNumber "" || fail update
na root word entity info alice | grep 12 && fail "not cleared"
''', "clearing a field that was set", "the badge number cannot be cleared")
cli("c32-big-number", "C32", [("internal/ctl/helpers.go", '			fmt.Printf("Number: %d\\n", entity.GetNumber())\n', '			fmt.Printf("Number: %d\\n", int16(entity.GetNumber()))\n')], '''up 10m --server.bootstrap root:word
na root word entity create alice --initial-secret s --number 70000 || fail create
na root word entity info alice | grep 70000 || fail "number"
''', "numbers above 32767", "another number is shown")
cli("c23-same-size", "C23", [(DC, '''		if err := target.Put(k, v); err != nil {
''', '''		if old, err := target.Get(k); err == nil && len(old) == len(v) {
			// Already there.
		} else if err := target.Put(k, v); err != nil {
''')], '''up 10m --server.bootstrap root:word
na root word entity create alice --initial-secret s || fail create
na root word entity update alice --shell /bin/one || fail update
down
"$tmp/nsutil" copy filesystem bitcask --no-dry-run || fail copy
up 10m
na root word entity update alice --shell /bin/two || fail update
down
"$tmp/nsutil" copy filesystem bitcask --no-dry-run || fail copy
up 10m --db.backend bitcask
na root word entity info alice | grep two || fail "the old record"
''', "a record that changed without changing its size, copied over the old one", "the target keeps the old record")
cli("c23-truncate", "C23", [(DC, '''	if dbCopyCmdTruncate {
		for _, k''', '''	if dbCopyCmdTruncate && len(targetKeys) > len(sourceKeys) {
		for _, k''')], '''up 10m --server.bootstrap root:word
na root word entity create alice --initial-secret s || fail create
down
"$tmp/nsutil" copy filesystem bitcask --no-dry-run || fail copy
up 10m
na root word entity destroy alice || fail destroy
na root word entity create bob --initial-secret s || fail create
down
"$tmp/nsutil" copy filesystem bitcask --no-dry-run --truncate || fail copy
up 10m --db.backend bitcask
na root word entity info bob || fail "bob is not there"
na root word entity info alice && fail "alice is there"
''', "truncation of a target with no more records than the source", "records that are not in the source stay in the target")

CLIENT = '''// bearer gives a context for a client.
func (s *server) bearer() context.Context {
	md, _ := metadata.FromIncomingContext(s.root())
	return netauth.Authorize(context.Background(), md.Get("authorization")[0])
}

func listen(s *server, ip string, port int) int {
	l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", ip, port))
	if err != nil {
		s.t.Fatal(err)
	}
	g := grpc.NewServer()
	pb.RegisterNetAuth2Server(g, s.srv)
	go g.Serve(l)
	s.t.Cleanup(g.Stop)
	return l.Addr().(*net.TCPAddr).Port
}

func client(s *server, port int, master string) *netauth.Client {
	viper.Set("core.server", "127.0.0.1")
	viper.Set("core.master", master)
	viper.Set("core.port", port)
	viper.Set("core.conf", s.home)
	viper.Set("tls.pwn_me", true)
	viper.Set("token.cache", "memory")
	viper.Set("token.backend", "demo-none")
	c, err := netauth.NewWithLog(hclog.NewNullLogger())
	if err != nil {
		s.t.Fatal(err)
	}
	return c
}

'''
CL_IMP = ['"fmt"', '"net"', '"google.golang.org/grpc/metadata"', '"context"', '"github.com/hashicorp/go-hclog"', '"github.com/spf13/viper"', '"google.golang.org/grpc"', PB, '"github.com/netauth/netauth/pkg/netauth"', '_ "github.com/netauth/netauth/pkg/netauth/cache/memory"']
seed("c26-index-order", "C26",
     [("pkg/netauth/util.go", "typedKV[keyset][i].index < typedKV[keyset][j].index", "strconv.Itoa(typedKV[keyset][i].index) < strconv.Itoa(typedKV[keyset][j].index)")],
     go(CLIENT + '''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	c := client(s, listen(s, "127.0.0.1", 0), "127.0.0.1")
	ctx := s.bearer()
	for _, i := range []string{"2", "10", "1"} {
		if _, err := c.EntityUM(ctx, "a", "UPSERT", "k{"+i+"}", "v"+i); err != nil {
			t.Fatal(err)
		}
	}
	um, err := c.EntityUM(ctx, "a", "READ", "k", "")
	if err != nil {
		t.Fatal(err)
	}
	want(t, "values of k", um["k"], []string{"v1", "v2", "v10"})
}
''', *CL_IMP), "an indexed key with indices of one and of two digits", "its values come in the order of the digits")
seed("c26-kvdel-replica", "C26",
     [("pkg/netauth/group.go", '''func (c *Client) GroupKVDel(ctx context.Context, id, key string) error {
	if err := c.makeWritable(); err != nil {
		return err
	}
''', '''func (c *Client) GroupKVDel(ctx context.Context, id, key string) error {
''')],
     go(CLIENT + '''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkG("staff")
	s.serve(true)
	port := listen(s, "127.0.0.1", 0)
	s.serve(false)
	listen(s, "127.0.0.2", port)
	ctx := s.bearer()
	if err := client(s, port, "127.0.0.2").GroupKVAdd(ctx, "staff", "k", []string{"v"}); err != nil {
		t.Fatal(err)
	}
	if err := client(s, port, "127.0.0.2").GroupKVDel(ctx, "staff", "k"); err != nil {
		t.Fatal("GroupKVDel: ", err)
	}
}
''', *CL_IMP), "a client of a read-only server whose first change is the removal of a group's key", "the request goes to the read-only server, and is refused")
FC = "pkg/netauth/cache/fs/fs.go"
MC = "pkg/netauth/cache/memory/memory.go"
seed("c29-trimmed", "C29",
     [(FC, "	return string(d), nil\n", "	return strings.TrimSpace(string(d)), nil\n"), (FC, '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')],
     go('''func TestDemo(t *testing.T) {
	os.Setenv("TMPDIR", t.TempDir())
	startup.DoCallbacks()
	c, err := cache.NewTokenCache("fs")
	if err != nil {
		t.Fatal(err)
	}
	for _, x := range []string{"token", "token\\n"} {
		if err := c.PutToken("a", x); err != nil {
			t.Fatal(err)
		}
		got, err := c.GetToken("a")
		if err != nil || got != x {
			t.Fatalf("put %q, got %q (%v)", x, got, err)
		}
	}
}
''', '"os"', '"github.com/netauth/netauth/internal/startup"', '"github.com/netauth/netauth/pkg/netauth/cache"', '_ "github.com/netauth/netauth/pkg/netauth/cache/fs"'), "a token that ends with a line feed", "another token comes back", helper=False)
seed("c29-shared", "C29",
     [(MC, '''	c := &inMemoryCache{
		c: make(map[string]string),
	}
	return c, nil
''', '''	return shared, nil
'''), (MC, '''func init() {''', '''var shared = &inMemoryCache{c: make(map[string]string)}

func init() {''')],
     go('''func TestDemo(t *testing.T) {
	startup.DoCallbacks()
	a, err := cache.NewTokenCache("memory")
	if err != nil {
		t.Fatal(err)
	}
	b, err := cache.NewTokenCache("memory")
	if err != nil {
		t.Fatal(err)
	}
	if err := a.PutToken("x", "token"); err != nil {
		t.Fatal(err)
	}
	if got, err := b.GetToken("x"); err == nil {
		t.Fatalf("the token %q of another cache", got)
	}
}
''', '"github.com/netauth/netauth/internal/startup"', '"github.com/netauth/netauth/pkg/netauth/cache"', '_ "github.com/netauth/netauth/pkg/netauth/cache/memory"'), "two memory caches in one process", "each has the tokens of the other", helper=False)

NCL = "pkg/netauth/netauth.go"
TLS_IMP = [i for i in CL_IMP if 'metadata' not in i] + ['"crypto/ecdsa"', '"crypto/elliptic"', '"crypto/rand"', '"crypto/tls"', '"crypto/x509"', '"encoding/pem"', '"math/big"', '"os"', '"path/filepath"', '"sync/atomic"', '"time"', '"google.golang.org/grpc/credentials"']
TLS_IMP = [i for i in TLS_IMP if i != PB] + [PB]
TRUST = """type tserver struct {
	calls int32
	port  int
}

// tlisten is a server at 127.0.0.1 with a certificate for ip (none if empty);
// its authority is written to file.
func tlisten(t *testing.T, ip, file string) *tserver {
	s := &tserver{}
	count := func(context.Context, interface{}, *grpc.UnaryServerInfo, grpc.UnaryHandler) (interface{}, error) {
		atomic.AddInt32(&s.calls, 1)
		return &pb.Empty{}, nil
	}
	opts := []grpc.ServerOption{grpc.UnaryInterceptor(count)}
	if ip != "" {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			t.Fatal(err)
		}
		c := &x509.Certificate{SerialNumber: big.NewInt(1), IsCA: true, BasicConstraintsValid: true, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
			KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, IPAddresses: []net.IP{net.ParseIP(ip)}}
		der, err := x509.CreateCertificate(rand.Reader, c, c, k.Public(), k)
		if err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600); err != nil {
			t.Fatal(err)
		}
		opts = append(opts, grpc.Creds(credentials.NewServerTLSFromCert(&tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k})))
	}
	g := grpc.NewServer(opts...)
	pb.RegisterNetAuth2Server(g, rpc2.New(rpc2.Refs{}, hclog.NewNullLogger()))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go g.Serve(l)
	t.Cleanup(g.Stop)
	s.port = l.Addr().(*net.TCPAddr).Port
	return s
}

func tclient(port int, file string) (*netauth.Client, error) {
	viper.Set("core.server", "127.0.0.1")
	viper.Set("core.master", "127.0.0.1")
	viper.Set("core.port", port)
	viper.Set("core.conf", filepath.Dir(file))
	viper.Set("tls.certificate", file)
	viper.Set("tls.pwn_me", false)
	viper.Set("token.cache", "memory")
	viper.Set("token.backend", "demo-none")
	return netauth.NewWithLog(hclog.NewNullLogger())
}

func try(t *testing.T, s *tserver, file string) error {
	c, err := tclient(s.port, file)
	if err != nil {
		return err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	return c.AuthEntity(ctx, "alice", "secret")
}

"""
TLS_IMP = [i for i in TLS_IMP if '"fmt"' not in i] + ['"github.com/netauth/netauth/internal/rpc2"']
seed("c34-any-name", "C34", [(NCL, 'import (\n\t"fmt"\n\t"os"\n', 'import (\n\t"crypto/tls"\n\t"crypto/x509"\n\t"fmt"\n\t"os"\n'),
     (NCL, '''		creds, err := credentials.NewClientTLSFromFile(certPath, "")
		if err != nil {
			return nil, err
		}
''', '''		pem, err := os.ReadFile(certPath)
		if err != nil {
			return nil, err
		}
		pool := x509.NewCertPool()
		if !pool.AppendCertsFromPEM(pem) {
			return nil, fmt.Errorf("no certificate in %s", certPath)
		}
		// The server may be known under another name than the
		// one it has its certificate for.
		creds := credentials.NewTLS(&tls.Config{
			InsecureSkipVerify: true,
			VerifyConnection: func(s tls.ConnectionState) error {
				_, err := s.PeerCertificates[0].Verify(x509.VerifyOptions{Roots: pool})
				return err
			},
		})
''')],
     go(TRUST + """func TestDemo(t *testing.T) {
	dir := t.TempDir()
	file := filepath.Join(dir, "tls.pem")
	if err := try(t, tlisten(t, "127.0.0.1", file), file); err != nil {
		t.Fatal("the right server: ", err)
	}
	s := tlisten(t, "127.0.0.9", file)
	if err := try(t, s, file); err == nil || s.calls != 0 {
		t.Fatal("a server whose certificate is for another address got the request")
	}
}
""", *TLS_IMP), "a server with a certificate of the right authority, for another name", "any server of the authority is taken for the one that is configured", helper=False)
seed("c34-missing-file", "C34", [(NCL, '''		creds, err := credentials.NewClientTLSFromFile(certPath, "")
		if err != nil {
			return nil, err
		}
		opts = []grpc.DialOption{grpc.WithTransportCredentials(creds)}
''', '''		creds, err := credentials.NewClientTLSFromFile(certPath, "")
		switch {
		case os.IsNotExist(err):
			// There is nothing to verify the server with.
			opts = []grpc.DialOption{grpc.WithInsecure()}
		case err != nil:
			return nil, err
		default:
			opts = []grpc.DialOption{grpc.WithTransportCredentials(creds)}
		}
''')],
     go(TRUST + """func TestDemo(t *testing.T) {
	dir := t.TempDir()
	file := filepath.Join(dir, "tls.pem")
	if err := try(t, tlisten(t, "127.0.0.1", file), file); err != nil {
		t.Fatal("the right server: ", err)
	}
	s := tlisten(t, "", file)
	if err := try(t, s, filepath.Join(dir, "none.pem")); err == nil || s.calls != 0 {
		t.Fatal("the request was sent in the clear")
	}
}
""", *TLS_IMP), "a certificate file that is not there", "requests are sent in the clear", helper=False)

seed("c13-two-digits", "C13",
     [("internal/tree/util/util.go", "regexp.MustCompile(`{\\d+}`)", "regexp.MustCompile(`{\\d{1,2}}`)")],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	up, clear := pb.Action_UPSERT, pb.Action_CLEARFUZZY
	for _, k := range []string{"k{0}", "k{99}", "k{100}", "other"} {
		s.ok(s.srv.EntityUM(s.root(), &pb.KVRequest{Target: proto.String("a"), Action: &up, Key: proto.String(k), Value: proto.String("v")}))
	}
	s.ok(s.srv.EntityUM(s.root(), &pb.KVRequest{Target: proto.String("a"), Action: &clear, Key: proto.String("k")}))
	want(t, "metadata", s.entity("a").GetMeta().GetUntypedMeta(), list("other:v"))
}
''', PROTO, PB), "an index of three digits", "the key is not found, nor cleared, with those of its kind")
seed("c29-bounded", "C29",
     [(MC, "c: make(map[string]string),", "c: make(map[string]string, 16),"), (MC, '''	imc.c[owner] = token
''', '''	if len(imc.c) >= 16 {
		// Make room, nobody has this many identities.
		for o := range imc.c {
			delete(imc.c, o)
			break
		}
	}
	imc.c[owner] = token
''')],
     go('''func TestDemo(t *testing.T) {
	startup.DoCallbacks()
	a, err := cache.NewTokenCache("memory")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 40; i++ {
		if err := a.PutToken(fmt.Sprint("x", i), fmt.Sprint("token", i)); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 40; i++ {
		if got, err := a.GetToken(fmt.Sprint("x", i)); err != nil || got != fmt.Sprint("token", i) {
			t.Fatalf("owner %d: %q, %v", i, got, err)
		}
	}
}
''', '"fmt"', '"github.com/netauth/netauth/internal/startup"', '"github.com/netauth/netauth/pkg/netauth/cache"', '_ "github.com/netauth/netauth/pkg/netauth/cache/memory"'), "tokens of more than sixteen owners", "the tokens of others are forgotten", helper=False)
EX = "internal/tree/hooks/entity-kv.go"
seed("c12-long-lists", "C12",
     [(EX, "	out := []*pb.KVData{}\n", "	out := make([]*pb.KVData, 0, len(e.GetMeta().GetKV()))\n"), (EX, '''		out = append(out, k)
''', '''		if len(k.Values) > 16 {
			k.Values = k.Values[:16]
		}
		out = append(out, k)
''')],
     go('''func TestDemo(t *testing.T) {
	s := start(t, "memory")
	s.mkE("a")
	d := &types.KVData{Key: proto.String("long")}
	for i := int32(0); i < 20; i++ {
		i := i
		d.Values = append(d.Values, &types.KVValue{Index: &i, Value: proto.String("v")})
	}
	s.ok(s.srv.EntityKVAdd(s.root(), &pb.KV2Request{Target: proto.String("a"), Data: d}))
	o := &types.KVData{Key: proto.String("other")}
	s.ok(s.srv.EntityKVAdd(s.root(), &pb.KV2Request{Target: proto.String("a"), Data: o}))
	s.ok(s.srv.EntityKVDel(s.root(), &pb.KV2Request{Target: proto.String("a"), Data: o}))
	if n := len(s.entity("a").GetMeta().GetKV()[0].GetValues()); n != 20 {
		t.Fatalf("%d values", n)
	}
}
''', PROTO, TYPES, PB), "a key with more than sixteen values, when another one is removed", "its further values are lost")
seed("c33-key-order", "C33",
     [("internal/token/jwt/rsa.go", '''	if err := marshalPrivateKey(s.privateKey, s.privateKeyFile); err != nil {
		return err
	}

	if err := marshalPublicKey(s.publicKey, s.publicKeyFile); err != nil {
		return err
	}
''', '''	if err := marshalPublicKey(s.publicKey, s.publicKeyFile); err != nil {
		return err
	}

	if err := marshalPrivateKey(s.privateKey, s.privateKeyFile); err != nil {
		return err
	}
''')],
     go('''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	viper.Set("core.conf", dir)
	viper.Set("token.jwt.generate", true)
	viper.Set("token.jwt.bits", 1024)
	// The first start ends while the keys are made.
	block := filepath.Join(dir, "keys", "token.key")
	if err := os.MkdirAll(block, 0755); err != nil {
		t.Fatal(err)
	}
	if _, err := jwt.NewRSA(hclog.NewNullLogger()); err == nil {
		t.Fatal("keys were made")
	}
	if err := os.Remove(block); err != nil {
		t.Fatal(err)
	}
	s, err := jwt.NewRSA(hclog.NewNullLogger())
	if err != nil {
		t.Fatal("the next start: ", err)
	}
	if _, err := s.Generate(token.Claims{EntityID: "a"}, token.GetConfig()); err != nil {
		t.Fatal("no tokens after the next start: ", err)
	}
}
''', '"os"', '"path/filepath"', '"github.com/hashicorp/go-hclog"', '"github.com/spf13/viper"', '"github.com/netauth/netauth/internal/token"', '"github.com/netauth/netauth/internal/token/jwt"'), "an end of the server's first start between the writing of its two keys", "the server never issues tokens again, having a public key only", helper=False)
