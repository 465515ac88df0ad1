//go:build go1.22

package zzdemo

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"sort"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc/metadata"

	"github.com/netauth/netauth/internal/crypto"
	_ "github.com/netauth/netauth/internal/crypto/bcrypt"
	_ "github.com/netauth/netauth/internal/crypto/nocrypto"
	"github.com/netauth/netauth/internal/db"
	_ "github.com/netauth/netauth/internal/db/bitcask"
	_ "github.com/netauth/netauth/internal/db/filesystem"
	_ "github.com/netauth/netauth/internal/db/memory"
	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/token/null"
	"github.com/netauth/netauth/internal/tree"
	_ "github.com/netauth/netauth/internal/tree/hooks"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// A kvHook lets a demonstration disturb the store.
type hookKV struct {
	db.KVStore
	before func(op, key string) error
}

func (h *hookKV) b(op, k string) error {
	if h.before == nil {
		return nil
	}
	return h.before(op, k)
}
func (h *hookKV) Put(k string, v []byte) error {
	if err := h.b("put", k); err != nil {
		return err
	}
	return h.KVStore.Put(k, v)
}
func (h *hookKV) Get(k string) ([]byte, error) {
	if err := h.b("get", k); err != nil {
		return nil, err
	}
	return h.KVStore.Get(k)
}
func (h *hookKV) Del(k string) error {
	if err := h.b("del", k); err != nil {
		return err
	}
	return h.KVStore.Del(k)
}
func (h *hookKV) Keys(f string) ([]string, error) {
	if err := h.b("keys", f); err != nil {
		return nil, err
	}
	return h.KVStore.Keys(f)
}

var (
	booted bool
	nextKV db.KVStore
)

func boot() {
	if booted {
		return
	}
	booted = true
	hclog.SetDefault(hclog.NewNullLogger())
	startup.DoCallbacks()
	db.RegisterKV("demo", func(hclog.Logger) (db.KVStore, error) { return nextKV, nil })
}

type server struct {
	t             *testing.T
	backend, home string
	crypto        string
	kv            *hookKV
	db            *db.DB
	tree          *tree.Manager
	srv           pb.NetAuth2Server
	tok           token.Service
}

func start(t *testing.T, backend string) *server { return startWith(t, backend, "nocrypto") }

func startWith(t *testing.T, backend, cr string) *server {
	boot()
	s := &server{t: t, backend: backend, crypto: cr, tok: null.New(hclog.NewNullLogger())}
	d, err := os.MkdirTemp("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	s.home = d
	t.Cleanup(func() { os.RemoveAll(d) })
	s.open()
	t.Cleanup(func() { s.kv.Close() })
	return s
}

func (s *server) open() {
	viper.Set("core.home", s.home)
	viper.Set("crypto.bcrypt.cost", 4)
	if s.kv == nil || s.backend != "memory" {
		kv, err := db.NewKV(s.backend, hclog.NewNullLogger())
		if err != nil {
			s.t.Fatal(err)
		}
		s.kv = &hookKV{KVStore: kv}
	}
	nextKV = s.kv
	var err error
	if s.db, err = db.New("demo"); err != nil {
		s.t.Fatal(err)
	}
	c, err := crypto.New(s.crypto)
	if err != nil {
		s.t.Fatal(err)
	}
	if s.tree, err = tree.New(s.db, c, hclog.NewNullLogger()); err != nil {
		s.t.Fatal(err)
	}
	if err := s.db.EventUpdateAll(); err != nil {
		s.t.Fatal(err)
	}
	s.serve(false)
}

func (s *server) serve(ro bool) {
	viper.Set("server.readonly", ro)
	s.srv = rpc2.New(rpc2.Refs{TokenService: s.tok, Tree: s.tree}, hclog.NewNullLogger())
	viper.Set("server.readonly", false)
}

func (s *server) restart() {
	if s.backend != "memory" {
		s.kv.Close()
	}
	s.open()
}

func (s *server) as(id string, caps ...types.Capability) context.Context {
	tk, err := s.tok.Generate(token.Claims{EntityID: id, Capabilities: caps}, token.GetConfig())
	if err != nil {
		s.t.Fatal(err)
	}
	return metadata.NewIncomingContext(context.Background(), metadata.Pairs("authorization", tk))
}

func (s *server) root() context.Context { return s.as("root", types.Capability_GLOBAL_ROOT) }

func (s *server) ok(_ interface{}, err error) {
	s.t.Helper()
	if err != nil {
		s.t.Fatal(err)
	}
}

func (s *server) mkE(ids ...string) {
	s.t.Helper()
	for _, id := range ids {
		s.ok(s.srv.EntityCreate(s.root(), &pb.EntityRequest{Entity: &types.Entity{ID: proto.String(id), Number: proto.Int32(-1), Secret: proto.String("secret-" + id)}}))
	}
}

func (s *server) rmE(id string) {
	s.t.Helper()
	s.ok(s.srv.EntityDestroy(s.root(), &pb.EntityRequest{Entity: &types.Entity{ID: proto.String(id)}}))
}

func (s *server) mkG(names ...string) {
	s.t.Helper()
	for _, n := range names {
		s.ok(s.srv.GroupCreate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String(n), DisplayName: proto.String(n), Number: proto.Int32(-1)}}))
	}
}

func (s *server) rmG(n string) {
	s.t.Helper()
	s.ok(s.srv.GroupDestroy(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String(n)}}))
}

func (s *server) add(e string, gs ...string) {
	s.t.Helper()
	s.ok(s.srv.GroupAddMember(s.root(), &pb.EntityRequest{Entity: &types.Entity{ID: proto.String(e), Meta: &types.EntityMeta{Groups: gs}}}))
}

func (s *server) del(e string, gs ...string) {
	s.t.Helper()
	s.ok(s.srv.GroupDelMember(s.root(), &pb.EntityRequest{Entity: &types.Entity{ID: proto.String(e), Meta: &types.EntityMeta{Groups: gs}}}))
}

func (s *server) tryRule(g, target string, a pb.RuleAction) error {
	_, err := s.srv.GroupUpdateRules(s.root(), &pb.GroupRulesRequest{Group: &types.Group{Name: proto.String(g)}, Target: &types.Group{Name: proto.String(target)}, RuleAction: &a})
	return err
}

func (s *server) include(g string, targets ...string) {
	s.t.Helper()
	for _, x := range targets {
		s.ok(nil, s.tryRule(g, x, pb.RuleAction_INCLUDE))
	}
}

func (s *server) exclude(g string, targets ...string) {
	s.t.Helper()
	for _, x := range targets {
		s.ok(nil, s.tryRule(g, x, pb.RuleAction_EXCLUDE))
	}
}

func (s *server) members(g string) []string {
	s.t.Helper()
	r, err := s.srv.GroupMembers(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String(g)}})
	s.ok(nil, err)
	out := []string{}
	for _, e := range r.GetEntities() {
		out = append(out, e.GetID())
	}
	sort.Strings(out)
	return out
}

func (s *server) groups(e string) []string {
	s.t.Helper()
	r, err := s.srv.EntityGroups(s.root(), &pb.EntityRequest{Entity: &types.Entity{ID: proto.String(e)}})
	s.ok(nil, err)
	out := []string{}
	for _, g := range r.GetGroups() {
		out = append(out, g.GetName())
	}
	sort.Strings(out)
	return out
}

func (s *server) group(n string) *types.Group {
	s.t.Helper()
	r, err := s.srv.GroupInfo(s.root(), &pb.GroupRequest{Group: &types.Group{Name: proto.String(n)}})
	s.ok(nil, err)
	return r.GetGroups()[0]
}

func (s *server) entity(id string) *types.Entity {
	s.t.Helper()
	r, err := s.srv.EntityInfo(s.root(), &pb.EntityRequest{Entity: &types.Entity{ID: proto.String(id)}})
	s.ok(nil, err)
	return r.GetEntities()[0]
}

func (s *server) auth(id, secret string) error {
	_, err := s.srv.AuthEntity(context.Background(), &pb.AuthRequest{Entity: &types.Entity{ID: proto.String(id)}, Secret: proto.String(secret)})
	return err
}

func (s *server) cap(entity, group string, c types.Capability, add bool) {
	s.t.Helper()
	a := pb.Action_DROP
	if add {
		a = pb.Action_ADD
	}
	r := &pb.CapabilityRequest{Direct: proto.Bool(entity != ""), Target: proto.String(entity + group), Capability: &c, Action: &a}
	s.ok(s.srv.SystemCapabilities(s.root(), r))
}

func want(t *testing.T, what string, got, want interface{}) {
	t.Helper()
	if !reflect.DeepEqual(got, want) {
		t.Fatalf("%s: got %v, want %v", what, got, want)
	}
}

func list(xs ...string) []string { return append([]string{}, xs...) }

var _ = fmt.Sprint
