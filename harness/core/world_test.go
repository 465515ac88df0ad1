//go:build go1.22

package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	"github.com/netauth/netauth/internal/crypto"
	_ "github.com/netauth/netauth/internal/crypto/bcrypt"
	_ "github.com/netauth/netauth/internal/crypto/nocrypto"
	"github.com/netauth/netauth/internal/db"
	_ "github.com/netauth/netauth/internal/db/bitcask"
	_ "github.com/netauth/netauth/internal/db/filesystem"
	_ "github.com/netauth/netauth/internal/db/memory"
	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/token"
	_ "github.com/netauth/netauth/internal/token/jwt"
	"github.com/netauth/netauth/internal/token/null"
	"github.com/netauth/netauth/internal/tree"
	_ "github.com/netauth/netauth/internal/tree/hooks"
	"github.com/netauth/netauth/internal/zzv/eng"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// TestVerif is the worker's entry point.
func TestVerif(t *testing.T) {
	if os.Getenv("VERIF_CHILD") != "" {
		os.Exit(childMain())
	}
	if os.Getenv("VERIF_PROP") == "" && os.Getenv("VERIF_REPLAY") == "" {
		t.Skip("driven by run.py")
	}
	os.Exit(eng.Main())
}

var (
	kvMu    sync.Mutex
	nextKV  db.KVStore
	once    sync.Once
	nullLog = hclog.Logger(pauseLog{Logger: hclog.NewNullLogger()})
)

// pause, where set, is called whenever the server writes to its log or
// turns to the secret engine: points at which a schedule may turn to another
// request.
var pause atomic.Pointer[func()]

func turn() {
	if f := pause.Load(); f != nil {
		(*f)()
	}
}

// heard, where set, is told whatever the server writes to its log.
var heard atomic.Pointer[func(string)]

// pauseLog is a log that nothing comes of. It knows what its lines begin with.
type pauseLog struct {
	hclog.Logger
	with string
}

func (l pauseLog) say(msg string, args []interface{}) {
	turn()
	if f := heard.Load(); f != nil {
		(*f)(logLine(l.with, msg, args))
	}
}

// logLine is what a line of a log says, in full.
func logLine(with, msg string, args []interface{}) string {
	s := with + " " + msg
	for _, a := range args {
		if f, ok := a.(hclog.Format); ok && len(f) > 0 {
			if x, ok := f[0].(string); ok {
				s += " " + fmt.Sprintf(x, f[1:]...)
				continue
			}
		}
		if b, ok := a.([]byte); ok {
			a = string(b)
		}
		s += " " + fmt.Sprintf("%+v", a)
	}
	return s
}

func (l pauseLog) Log(_ hclog.Level, m string, a ...interface{}) { l.say(m, a) }
func (l pauseLog) Trace(m string, a ...interface{})              { l.say(m, a) }
func (l pauseLog) Debug(m string, a ...interface{})              { l.say(m, a) }
func (l pauseLog) Info(m string, a ...interface{})               { l.say(m, a) }
func (l pauseLog) Warn(m string, a ...interface{})               { l.say(m, a) }
func (l pauseLog) Error(m string, a ...interface{})              { l.say(m, a) }
func (l pauseLog) With(a ...interface{}) hclog.Logger {
	if heard.Load() == nil {
		return l
	}
	return pauseLog{l.Logger, logLine(l.with, "", a)}
}
func (l pauseLog) Named(string) hclog.Logger      { return l }
func (l pauseLog) ResetNamed(string) hclog.Logger { return l }

type pauseCrypto struct{ crypto.EMCrypto }

func (c pauseCrypto) SecureSecret(s string) (string, error) {
	turn()
	return c.EMCrypto.SecureSecret(s)
}
func (c pauseCrypto) VerifySecret(s, h string) error { turn(); return c.EMCrypto.VerifySecret(s, h) }

func boot() {
	once.Do(func() {
		hclog.SetDefault(nullLog)
		// What netauthd does ahead of everything else: without it,
		// the first use of each package's log() would assign it.
		crypto.SetParentLogger(nullLog)
		db.SetParentLogger(nullLog)
		health.SetParentLogger(nullLog)
		token.SetParentLogger(nullLog)
		tree.SetParentLogger(nullLog)
		token.SetLifetime(token.GetConfig().Lifetime)
		startup.DoCallbacks()
		db.RegisterKV("verif", func(hclog.Logger) (db.KVStore, error) { return nextKV, nil })
	})
}

// dbOver builds the database layer over the given store.
func dbOver(kv db.KVStore) *db.DB {
	boot()
	kvMu.Lock()
	defer kvMu.Unlock()
	nextKV = kv
	d, err := db.New("verif")
	if err != nil {
		panic(err)
	}
	return d
}

// VKV wraps a real store: it can fail, observe or hold back operations.
type VKV struct {
	db.KVStore
	// Before is called ahead of each operation; a non-nil error is
	// returned to the caller instead of performing the operation.
	Before func(op, key string) error
	// After is called after each operation that was performed.
	After func(op, key string, err error)
	// AfterErr may replace the result of a write that was performed.
	AfterErr func(op, key string, err error) error

	// inCB is set while the store announces a change.
	inCB  bool
	track bool

	mu     sync.Mutex
	shadow map[string]bool // every key ever put (so that stray keys are seen)
	puts   int
	dels   int
}

func (v *VKV) before(op, k string) error {
	if v.Before != nil {
		return v.Before(op, k)
	}
	return nil
}

func (v *VKV) after(op, k string, err error) {
	if v.After != nil {
		v.After(op, k, err)
	}
}

// SetEventFunc notes when the store announces changes.
func (v *VKV) SetEventFunc(f func(db.Event)) {
	v.KVStore.SetEventFunc(func(e db.Event) {
		if v.track {
			v.inCB = true
			defer func() { v.inCB = false }()
		}
		f(e)
	})
}

// Put stores a value.
func (v *VKV) Put(k string, b []byte) error {
	if err := v.before("put", k); err != nil {
		return err
	}
	v.mu.Lock()
	v.shadow[k] = true
	v.puts++
	v.mu.Unlock()
	err := v.KVStore.Put(k, append([]byte{}, b...))
	v.after("put", k, err)
	if v.AfterErr != nil {
		err = v.AfterErr("put", k, err)
	}
	return err
}

// Get fetches a value.
func (v *VKV) Get(k string) ([]byte, error) {
	if err := v.before("get", k); err != nil {
		return nil, err
	}
	b, err := v.KVStore.Get(k)
	v.after("get", k, err)
	return append([]byte{}, b...), err
}

// Del removes a value.
func (v *VKV) Del(k string) error {
	if err := v.before("del", k); err != nil {
		return err
	}
	v.mu.Lock()
	v.dels++
	v.mu.Unlock()
	err := v.KVStore.Del(k)
	v.after("del", k, err)
	if v.AfterErr != nil {
		err = v.AfterErr("del", k, err)
	}
	return err
}

// Keys lists the keys.
func (v *VKV) Keys(f string) ([]string, error) {
	if err := v.before("keys", f); err != nil {
		return nil, err
	}
	ks, err := v.KVStore.Keys(f)
	v.after("keys", f, err)
	return ks, err
}

// World is one running server with its store.
type World struct {
	t       *eng.T
	backend string
	cryptoN string
	home    string
	kv      *VKV
	db      *db.DB
	tree    *tree.Manager
	srv     pb.NetAuth2Server
	tok     token.Service
	gen     int

	// OnResp sees every answer.
	OnResp func(method string, resp proto.Message, err string)
	// outer is a directory around home.
	outer string
	// plug, if set, adds hooks to a tree that was just made.
	plug func(*tree.Manager)
	// remote, if set, is a client of a server in another process, and list
	// lists its objects.
	remote pb.NetAuth2Client
	list   func() (ents, grps map[string]bool, strays []string)
}

// plugNext is for the next world that is made.
var plugNext func(*tree.Manager)

func scratch(t *eng.T) string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "case-")
	if err != nil {
		panic(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// NewWorld starts a server over an empty store.
func NewWorld(t *eng.T, backend, cryptoName string) *World {
	boot()
	w := &World{t: t, backend: backend, cryptoN: cryptoName, tok: null.New(nullLog), plug: plugNext}
	plugNext = nil
	if backend != "memory" {
		w.outer = scratch(t)
		w.home = filepath.Join(w.outer, "x", "y", "z", "w")
		if err := os.MkdirAll(w.home, 0755); err != nil {
			panic(err)
		}
	}
	w.openKV()
	t.Cleanup(func() { w.kv.KVStore.Close() })
	w.start()
	return w
}

func (w *World) openKV() {
	viper.Set("core.home", w.home)
	in, err := db.NewKV(w.backend, nullLog)
	if err != nil {
		panic(fmt.Sprintf("cannot open %s store: %v", w.backend, err))
	}
	sh := map[string]bool{}
	if w.kv != nil {
		sh = w.kv.shadow
	}
	w.kv = &VKV{KVStore: in, shadow: sh}
}

func (w *World) start() {
	viper.Set("crypto.bcrypt.cost", 4)
	w.db = dbOver(w.kv)
	c, err := crypto.New(w.cryptoN)
	if err != nil {
		panic(err)
	}
	w.tree, err = tree.New(w.db, pauseCrypto{c}, nullLog)
	if err != nil {
		panic(err)
	}
	if w.plug != nil {
		w.plug(w.tree)
	}
	if err := w.db.EventUpdateAll(); err != nil {
		w.t.Failf("restart", "the server cannot load its store: %v", err)
	}
	w.mkserver()
	w.gen++
}

func (w *World) mkserver() {
	w.srv = rpc2.New(rpc2.Refs{TokenService: w.tok, Tree: w.tree}, nullLog)
}

// ReadOnly switches the server into or out of read-only mode.
func (w *World) ReadOnly(ro bool) {
	viper.Set("server.readonly", ro)
	w.mkserver()
	viper.Set("server.readonly", false)
}

// Restart stops the server and starts a new one over the same store.
func (w *World) Restart() {
	if w.backend != "memory" {
		w.db.Shutdown()
		w.openKV()
	}
	w.start()
}

// Snapshot reads the raw store.
func (w *World) Snapshot() map[string]string {
	out := map[string]string{}
	w.kv.mu.Lock()
	keys := map[string]bool{}
	for k := range w.kv.shadow {
		keys[k] = true
	}
	w.kv.mu.Unlock()
	for _, p := range []string{"/*/*", "/*", "*", "/entities/*", "/groups/*"} {
		ks, _ := w.kv.KVStore.Keys(p)
		for _, k := range ks {
			keys[k] = true
		}
	}
	for k := range keys {
		if b, err := w.kv.KVStore.Get(k); err == nil {
			out[k] = string(b)
		}
	}
	return out
}

func diffSnap(a, b map[string]string) string {
	var d []string
	for k := range a {
		if v, ok := b[k]; !ok {
			d = append(d, fmt.Sprintf("%q removed", k))
		} else if !sameStored(k, v, a[k]) {
			d = append(d, fmt.Sprintf("%q changed: %s -> %s", k, showStored(k, a[k]), showStored(k, v)))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, fmt.Sprintf("%q added: %s", k, showStored(k, b[k])))
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

// sameStored compares two stored values by meaning.
func sameStored(k, a, b string) bool {
	if a == b {
		return true
	}
	var x, y proto.Message = &types.Entity{}, &types.Entity{}
	if strings.HasPrefix(k, "/groups") {
		x, y = &types.Group{}, &types.Group{}
	}
	if proto.Unmarshal([]byte(a), x) != nil || proto.Unmarshal([]byte(b), y) != nil {
		return false
	}
	return proto.Equal(x, y)
}

func showStored(k, v string) string {
	var x proto.Message = &types.Entity{}
	if strings.HasPrefix(k, "/groups") {
		x = &types.Group{}
	}
	if err := proto.Unmarshal([]byte(v), x); err != nil {
		return fmt.Sprintf("%q", v)
	}
	return "{" + proto.CompactTextString(x) + "}"
}

// Panic carries a crash of a request handler.
type Panic struct {
	Val   interface{}
	Stack string
}

// Call performs one request the way the network layer would: the request
// and the response go through their wire form, and the context carries the
// token in its metadata.  It returns the response and the status code.
func (w *World) Call(method, tok string, req proto.Message) (proto.Message, codes.Code) {
	resp, code, p := w.TryCall(method, tok, req)
	if p != nil {
		w.t.Failf("crash", "%s(%s) crashes the server: %v\n%s", method, proto.CompactTextString(req), p.Val, trimStack(p.Stack))
	}
	return resp, code
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

// TryCall is Call, but hands a crash back.
func (w *World) TryCall(method, tok string, req proto.Message) (resp proto.Message, code codes.Code, p *Panic) {
	ctx := context.Background()
	md := metadata.Pairs("client-name", "verif", "service-name", "verif")
	if tok != "" {
		md.Set("authorization", tok)
	}
	ctx = metadata.NewIncomingContext(ctx, md)
	return w.TryCallCtx(ctx, method, req)
}

// TryCallCtx is TryCall with a prepared context.
func (w *World) TryCallCtx(ctx context.Context, method string, req proto.Message) (resp proto.Message, code codes.Code, p *Panic) {
	b, err := proto.Marshal(req)
	if err != nil {
		panic(fmt.Sprintf("unencodable request: %v", err))
	}
	req2 := reflect.New(reflect.TypeOf(req).Elem()).Interface().(proto.Message)
	if err := proto.Unmarshal(b, req2); err != nil {
		return nil, codes.Internal, nil // the network layer refuses it
	}
	return w.handle(ctx, method, req2)
}

// handle passes a request, as the network layer decoded it, to the server.
func (w *World) handle(ctx context.Context, method string, req2 proto.Message) (resp proto.Message, code codes.Code, p *Panic) {
	var m reflect.Value
	if w.remote == nil {
		m = reflect.ValueOf(w.srv).MethodByName(method)
	} else {
		md, _ := metadata.FromIncomingContext(ctx)
		c, cancel := context.WithTimeout(metadata.NewOutgoingContext(context.Background(), md), 30*time.Second)
		defer cancel()
		ctx, m = c, reflect.ValueOf(w.remote).MethodByName(method)
	}
	var rets []reflect.Value
	func() {
		defer func() {
			if x := recover(); x != nil {
				p = &Panic{x, string(debug.Stack())}
			}
		}()
		rets = m.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req2)})
	}()
	if p != nil {
		return nil, codes.Unknown, p
	}
	if e, _ := rets[1].Interface().(error); e != nil {
		if w.OnResp != nil {
			w.OnResp(method, nil, e.Error())
		}
		return nil, status.Code(e), nil
	}
	r := rets[0].Interface().(proto.Message)
	if w.OnResp != nil {
		w.OnResp(method, r, "")
	}
	rb, err := proto.Marshal(r)
	if err != nil {
		return nil, codes.Internal, nil
	}
	r2 := reflect.New(reflect.TypeOf(r).Elem()).Interface().(proto.Message)
	if err := proto.Unmarshal(rb, r2); err != nil {
		return nil, codes.Internal, nil
	}
	return r2, codes.OK, nil
}

// Token issues a token for an entity with some capabilities.
func (w *World) Token(id string, caps ...types.Capability) string {
	s, err := w.tok.Generate(token.Claims{EntityID: id, Capabilities: caps}, token.GetConfig())
	if err != nil {
		panic(err)
	}
	return s
}

// Root is a token with every power, held by an entity outside the model.
func (w *World) Root() string { return w.Token("verif operator", types.Capability_GLOBAL_ROOT) }

var errInjected = errors.New("injected storage fault")

func str(s string) *string { return proto.String(s) }

func ent(id string) *types.Entity { return &types.Entity{ID: str(id)} }
func grp(n string) *types.Group   { return &types.Group{Name: str(n)} }

func entReq(id string) *pb.EntityRequest { return &pb.EntityRequest{Entity: ent(id)} }
func grpReq(n string) *pb.GroupRequest   { return &pb.GroupRequest{Group: grp(n)} }

func sorted(xs []string) []string { ys := append([]string{}, xs...); sort.Strings(ys); return ys }

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = sorted(a), sorted(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ = bytes.Equal
var _ = filepath.Join
