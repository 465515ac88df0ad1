//go:build go1.22

package core

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	jwt "github.com/dgrijalva/jwt-go"
	"github.com/spf13/viper"
	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/token"
	rsatoken "github.com/netauth/netauth/internal/token/jwt"
	"github.com/netauth/netauth/internal/zzv/eng"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// ---- C08: tokens ----

var (
	keyOnce  sync.Once
	keyDirs  []string
	ecKey    *ecdsa.PrivateKey
	otherKey *rsa.PrivateKey
)

// keyDir makes (once per process) configuration directories whose keys the
// token service generated by itself.
func keyDir(i int) string {
	keyOnce.Do(func() {
		for k := 0; k < 2; k++ {
			d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "keys-")
			if err != nil {
				panic(err)
			}
			viper.Set("core.conf", d)
			viper.Set("token.jwt.generate", true)
			viper.Set("token.jwt.bits", []int{1024, 2048}[k])
			if _, err := rsatoken.NewRSA(nullLog); err != nil {
				panic(err)
			}
			keyDirs = append(keyDirs, d)
		}
		ecKey, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		otherKey, _ = rsa.GenerateKey(rand.Reader, 1024)
	})
	return keyDirs[i]
}

// issued is one token the server really signed.
type issued struct {
	svc    int
	claims token.Claims
	iat    time.Time
	nbf    time.Time
	exp    time.Time
	tok    string
}

func sameClaims(a, b token.Claims) bool {
	if a.EntityID != b.EntityID || len(a.Capabilities) != len(b.Capabilities) {
		return false
	}
	return len(a.Capabilities) == 0 || reflect.DeepEqual(a.Capabilities, b.Capabilities)
}

func runJWT(t *eng.T, c *eng.Case) {
	boot()
	// Key material: the server under test runs with directory 0, the
	// foreign one with directory 1.
	dir := scratch(t)
	if err := os.MkdirAll(filepath.Join(dir, "keys"), 0755); err != nil {
		panic(err)
	}
	cp := func(f string, mode os.FileMode) {
		b, err := os.ReadFile(filepath.Join(keyDir(0), "keys", f))
		if err != nil {
			t.Failf("token:keys", "the generated key cannot be read: %v", err)
		}
		p := filepath.Join(dir, "keys", f)
		if err := os.WriteFile(p, b, 0600); err != nil {
			panic(err)
		}
		os.Chmod(p, mode)
	}
	keyDir(0)
	cp("token.pem", 0644)
	cp("token.key", 0400)
	start := func(d string) token.Service {
		viper.Set("core.conf", d)
		viper.Set("token.jwt.generate", false)
		s, err := rsatoken.NewRSA(nullLog)
		if err != nil {
			t.Failf("token:keys", "the token service does not start with its keys: %v", err)
		}
		return s
	}
	svc := []token.Service{start(dir), start(keyDir(1))}
	w := NewWorld(t, "memory", "nocrypto")
	root := w.tok
	_ = root
	w.tok = svc[0]
	w.mkserver()
	canSign := true
	var all []issued
	check := func(o eng.Op, tok string) {
		cl, err := svc[0].Validate(tok)
		now := time.Now()
		// Whose is it?
		var match *issued
		parts := strings.Split(tok, ".")
		for i := range all {
			a := &all[i]
			if a.svc != 0 {
				continue
			}
			if a.tok == tok {
				match = a
				break
			}
			ap := strings.Split(a.tok, ".")
			// The encoding of a signature has unused bits; a token is
			// the same if what they stand for is.
			if len(parts) == 3 && parts[0] == ap[0] && parts[1] == ap[1] {
				x, e1 := jwt.DecodeSegment(parts[2])
				y, _ := jwt.DecodeSegment(ap[2])
				if e1 == nil && string(x) == string(y) {
					match = a
					break
				}
			}
		}
		live := match != nil && now.Before(match.exp.Add(-6*time.Second)) && !now.Before(match.nbf.Add(2*time.Second)) && !now.Before(match.iat)
		dead := match != nil && (now.After(match.exp.Add(2*time.Second)) || now.Add(6*time.Second).Before(match.nbf))
		name := "a token the server did not issue"
		switch {
		case match == nil || dead:
			if dead {
				name = "a token outside of its validity"
			}
			if err == nil {
				t.Failf("token:accept", "%s: %s is accepted, with claims %+v (%s)", opStr(o), name, cl, clip(tok))
			}
			if !reflect.DeepEqual(cl, token.Claims{}) {
				t.Failf("token:accept", "%s: %s is refused, but yields claims %+v", opStr(o), name, cl)
			}
		case live:
			if err != nil {
				t.Failf("token:refuse", "%s: a valid token issued to %q is refused: %v", opStr(o), match.claims.EntityID, err)
			}
			if !sameClaims(cl, match.claims) {
				t.Failf("token:claims", "%s: a token issued with %+v yields %+v", opStr(o), match.claims, cl)
			}
		default:
			return
		}
		// The server as a whole must agree.
		_, code := w.Call("AuthValidateToken", "", &pb.AuthRequest{Token: str(tok)})
		if (code == codes.OK) != live {
			t.Failf("token:server", "%s: AuthValidateToken ends with %v for %s", opStr(o), code, map[bool]string{true: "a valid token", false: name}[live])
		}
		if tok == "" || strings.ContainsAny(tok, "\x00\n") {
			return
		}
		cr := types.Capability_GLOBAL_ROOT
		act := pb.Action_ADD
		_, code = w.Call("SystemCapabilities", tok, &pb.CapabilityRequest{Direct: boolp(true), Target: str("nobody"), Action: &act, Capability: &cr})
		root := false
		if live {
			root = match.claims.HasCapability(types.Capability_GLOBAL_ROOT)
		}
		switch {
		case !live && code != codes.Unauthenticated:
			t.Failf("token:server", "%s: a privileged request with %s ends with %v", opStr(o), name, code)
		case live && !root && code != codes.PermissionDenied:
			t.Failf("token:server", "%s: a privileged request with a valid token without the capability ends with %v", opStr(o), code)
		case live && root && (code == codes.PermissionDenied || code == codes.Unauthenticated):
			t.Failf("token:server", "%s: a privileged request with a valid token ends with %v", opStr(o), code)
		}
	}
	tampered := 0
	pick := func(n int64) *issued {
		if len(all) == 0 {
			return nil
		}
		return &all[int(n)%len(all)]
	}
	for _, o := range c.Ops {
		switch o.K {
		case "Issue":
			cl := token.Claims{EntityID: o.Str(0)}
			for _, n := range o.N[min(4, len(o.N)):] {
				cl.Capabilities = append(cl.Capabilities, types.Capability(n))
			}
			now := time.Now()
			cfg := token.Config{
				IssuedAt:  now.Add(time.Duration(o.Int(1)) * time.Second),
				NotBefore: now.Add(time.Duration(o.Int(2)) * time.Second),
				Lifetime:  time.Duration(o.Int(3)) * time.Second,
			}
			s := int(o.Int(0)) & 1
			tok, err := svc[s].Generate(cl, cfg)
			if s == 0 && !canSign {
				if err == nil || tok != "" {
					t.Failf("token:sign", "%s: a service without a private key issues a token", opStr(o))
				}
				continue
			}
			if err != nil {
				t.Failf("token:sign", "%s: no token: %v", opStr(o), err)
			}
			a := issued{svc: s, claims: cl, iat: cfg.IssuedAt, nbf: cfg.NotBefore, exp: cfg.NotBefore.Add(cfg.Lifetime), tok: tok}
			all = append(all, a)
			check(o, tok)
		case "Check":
			if a := pick(o.Int(0)); a != nil {
				check(o, a.tok)
			}
		case "Tamper":
			a := pick(o.Int(0))
			if a == nil {
				continue
			}
			tok := tamper(o, a, pick(o.Int(2)))
			tampered++
			t.Class("tamper:" + o.Str(0))
			check(o, tok)
		case "Forge":
			tok := forge(o, dir)
			if tok == "" {
				continue
			}
			tampered++
			t.Class("forge:" + o.Str(0))
			check(o, tok)
		case "Raw":
			check(o, o.Str(0))
		case "Restart":
			if o.Int(0) != 0 {
				os.Remove(filepath.Join(dir, "keys", "token.key"))
				canSign = false
			}
			svc[0] = start(dir)
			w.tok = svc[0]
			w.mkserver()
			for i := range all {
				check(o, all[i].tok)
			}
		case "Login":
			// The server's own way to a token.
			if !canSign {
				continue
			}
			id := o.Str(0)
			w.Call("EntityCreate", w.jwtRoot(svc[0]), &pb.EntityRequest{Entity: &types.Entity{ID: str(id), Secret: str("pw"), Number: protoInt(-1)}})
			life := time.Duration(o.Int(0)) * time.Second
			token.SetLifetime(life)
			r, code := w.Call("AuthGetToken", "", &pb.AuthRequest{Entity: ent(id), Secret: str("pw")})
			token.SetLifetime(0)
			if code != codes.OK {
				t.Failf("token:login", "%s: no token: %v", opStr(o), code)
			}
			if life == 0 {
				life = 5 * time.Minute
			}
			a := issued{svc: 0, claims: token.Claims{EntityID: id}, iat: time.Now().Add(-time.Second), nbf: time.Now().Add(-10 * time.Second), exp: time.Now().Add(life), tok: r.(*pb.AuthResult).GetToken()}
			all = append(all, a)
			check(o, a.tok)
		case "Generate":
			d2 := scratch(t)
			viper.Set("core.conf", d2)
			viper.Set("token.jwt.generate", true)
			viper.Set("token.jwt.bits", 1024)
			// What the service creates may be restricted for its files in general.
			old := syscall.Umask(int(o.Int(1)) & 0077)
			s1, err := rsatoken.NewRSA(nullLog)
			if err == nil && o.Int(2) != 0 {
				// It ended after the first of the two files.
				os.Remove(filepath.Join(d2, "keys", "token.pem"))
				s1, err = rsatoken.NewRSA(nullLog)
			}
			syscall.Umask(old)
			if err != nil {
				t.Failf("token:keys", "the service cannot generate its keys: %v", err)
			}
			viper.Set("token.jwt.generate", o.Int(0) == 0)
			for f, m := range map[string]os.FileMode{"token.key": 0077, "token.pem": 0022} {
				fi, err := os.Stat(filepath.Join(d2, "keys", f))
				if err != nil || fi.Mode().Perm()&m != 0 {
					t.Failf("token:keys", "the generated %s has mode %v, %v", f, fi.Mode(), err)
				}
			}
			s2, err := rsatoken.NewRSA(nullLog)
			if err != nil {
				t.Failf("token:keys", "the service does not start again with the keys it generated: %v", err)
			}
			cl := token.Claims{EntityID: "x", Capabilities: []types.Capability{types.Capability_LOCK_ENTITY}}
			for i, pair := range [][2]token.Service{{s1, s2}, {s2, s1}} {
				tok, err := pair[0].Generate(cl, token.GetConfig())
				if err != nil {
					t.Failf("token:sign", "the service with generated keys issues no token: %v", err)
				}
				if got, err := pair[1].Validate(tok); err != nil || !sameClaims(got, cl) {
					t.Failf("token:keys", "a token does not survive a restart (%d): %+v, %v", i, got, err)
				}
				if _, err := svc[0].Validate(tok); err == nil {
					t.Failf("token:accept", "a token signed with another server's key is accepted")
				}
			}
		case "BadKeys":
			// A service must not start on a public key that others may
			// have written, or on none.
			d2 := scratch(t)
			os.MkdirAll(filepath.Join(d2, "keys"), 0755)
			b, _ := os.ReadFile(filepath.Join(dir, "keys", "token.pem"))
			f := filepath.Join(d2, "keys", "token.pem")
			mode := os.FileMode(o.Int(0)) & 0777
			switch o.Str(0) {
			case "mode":
			case "garbage":
				b = []byte(o.Str(1))
				mode = 0644
			case "truncated":
				b = b[:len(b)/2]
				mode = 0644
			case "missing":
				f = ""
			}
			if f != "" {
				os.WriteFile(f, b, 0600)
				os.Chmod(f, mode)
			}
			viper.Set("core.conf", d2)
			viper.Set("token.jwt.generate", false)
			s, err := rsatoken.NewRSA(nullLog)
			good := o.Str(0) == "mode" && mode == 0644
			if err != nil && good {
				t.Failf("token:keys", "%s: the service refuses a good key: %v", opStr(o), err)
			}
			if err == nil && !good {
				t.Failf("token:keys", "%s: the service starts (%v) on a public key it must refuse", opStr(o), s != nil)
			}
		}
	}
	if len(all) > 0 && tampered > 0 {
		t.NonTrivial()
	}
}

func protoInt(n int32) *int32 { return &n }

func (w *World) jwtRoot(s token.Service) string {
	tok, err := s.Generate(token.Claims{EntityID: "verif operator", Capabilities: []types.Capability{types.Capability_GLOBAL_ROOT}}, token.GetConfig())
	if err != nil {
		panic(err)
	}
	return tok
}

func boolp(b bool) *bool { return &b }

func tamper(o eng.Op, a, b *issued) string {
	tok := a.tok
	p := strings.Split(tok, ".")
	q := strings.Split(b.tok, ".")
	at := int(o.Int(1))
	payload := func(f func(m map[string]interface{})) string {
		raw, _ := jwt.DecodeSegment(p[1])
		m := map[string]interface{}{}
		json.Unmarshal(raw, &m)
		f(m)
		out, _ := json.Marshal(m)
		return p[0] + "." + base64.RawURLEncoding.EncodeToString(out) + "." + p[2]
	}
	switch o.Str(0) {
	case "bit":
		x := []byte(tok)
		x[at%len(x)] ^= 1 << uint(at/7%7)
		return string(x)
	case "byte":
		x := []byte(tok)
		x[at%len(x)] = "ABCDEFGHabcdefgh01289-_.="[at/3%25]
		return string(x)
	case "cut":
		return tok[:at%len(tok)]
	case "extend":
		return tok + "AAAA"[:1+at%4]
	case "dot":
		return tok + "."
	case "nosig":
		return p[0] + "." + p[1] + "."
	case "twoparts":
		return p[0] + "." + p[1]
	case "swap-payload":
		return p[0] + "." + q[1] + "." + p[2]
	case "swap-signature":
		return p[0] + "." + p[1] + "." + q[2]
	case "header-none":
		return base64.RawURLEncoding.EncodeToString([]byte(`{"alg":"none","typ":"JWT"}`)) + "." + p[1] + "." + []string{"", p[2]}[at%2]
	case "header-hs":
		return base64.RawURLEncoding.EncodeToString([]byte(`{"alg":"HS256","typ":"JWT"}`)) + "." + p[1] + "." + p[2]
	case "header-ps":
		return base64.RawURLEncoding.EncodeToString([]byte(`{"alg":"PS512","typ":"JWT"}`)) + "." + p[1] + "." + p[2]
	case "header-rs256":
		return base64.RawURLEncoding.EncodeToString([]byte(`{"alg":"RS256","typ":"JWT"}`)) + "." + p[1] + "." + p[2]
	case "caps":
		return payload(func(m map[string]interface{}) { m["Capabilities"] = []int{0, 10, 11, 12} })
	case "entity":
		return payload(func(m map[string]interface{}) { m["EntityID"] = "somebody else" })
	case "exp":
		return payload(func(m map[string]interface{}) { m["exp"] = time.Now().Add(time.Hour).Unix() })
	case "noexp":
		return payload(func(m map[string]interface{}) { delete(m, "exp"); delete(m, "nbf") })
	case "space":
		return " " + tok
	case "bearer":
		return "Bearer " + tok
	}
	return tok
}

// forge makes a well-formed token nobody with the key signed.
func forge(o eng.Op, dir string) string {
	cl := rsatoken.RSAToken{
		Claims:         token.Claims{EntityID: o.Str(1), Capabilities: []types.Capability{types.Capability_GLOBAL_ROOT}},
		StandardClaims: jwt.StandardClaims{IssuedAt: time.Now().Add(-time.Minute).Unix(), NotBefore: time.Now().Add(-time.Minute).Unix(), ExpiresAt: time.Now().Add(time.Hour).Unix(), Subject: "NetAuth Standard Token", Audience: "Unrestricted", Id: o.Str(1)},
	}
	pem, err := os.ReadFile(filepath.Join(dir, "keys", "token.pem"))
	if err != nil {
		return ""
	}
	der, _ := jwt.ParseRSAPublicKeyFromPEM(pem)
	var m jwt.SigningMethod
	var key interface{}
	switch o.Str(0) {
	case "none":
		m, key = jwt.SigningMethodNone, jwt.UnsafeAllowNoneSignatureType
	case "hs256-pem":
		m, key = jwt.SigningMethodHS256, pem
	case "hs512-pem":
		m, key = jwt.SigningMethodHS512, pem
	case "hs256-trim":
		m, key = jwt.SigningMethodHS256, []byte(strings.TrimSpace(string(pem)))
	case "hs256-modulus":
		if der == nil {
			return ""
		}
		m, key = jwt.SigningMethodHS256, der.N.Bytes()
	case "hs256-empty":
		m, key = jwt.SigningMethodHS256, []byte("")
	case "es256":
		m, key = jwt.SigningMethodES256, ecKey
	case "rs512-other":
		m, key = jwt.SigningMethodRS512, otherKey
	case "rs256-other":
		m, key = jwt.SigningMethodRS256, otherKey
	case "ps512-other":
		m, key = jwt.SigningMethodPS512, otherKey
	default:
		return ""
	}
	s, err := jwt.NewWithClaims(m, cl).SignedString(key)
	if err != nil {
		panic(fmt.Sprintf("cannot forge %s: %v", o.Str(0), err))
	}
	return s
}

var tampers = []string{"bit", "bit", "bit", "byte", "byte", "cut", "extend", "dot", "nosig", "twoparts", "swap-payload", "swap-signature", "header-none", "header-hs", "header-ps", "header-rs256", "caps", "entity", "exp", "noexp", "space", "bearer"}
var forgeries = []string{"none", "hs256-pem", "hs512-pem", "hs256-trim", "hs256-modulus", "hs256-empty", "es256", "rs512-other", "rs256-other", "ps512-other"}

func genJWT(r eng.R) *eng.Case {
	c := &eng.Case{Cfg: map[string]string{}}
	ids := []string{"a", "root", "", "é", "x\"y", "a.b", "<&>", "\u2028", "valid", "{}", "\\", "𝄞"}
	issue := func() eng.Op {
		o := eng.O("Issue", r.Pick(ids...))
		if !utf8.ValidString(o.Str(0)) {
			panic("id")
		}
		s := int64(0)
		if r.Chance(1, 5) {
			s = 1
		}
		iat, nbf, life := int64(0), int64(-60), int64(300)
		// near is a time that may be just over: 3, 4, ... seconds or years.
		near := func() int64 { return 3 + r.Int63n(1<<uint(r.Intn(28))) }
		switch r.Intn(8) {
		case 0, 1: // expired
			life = near()
			nbf = -life - near()
		case 2: // not yet
			nbf = 7 + near()
			life = near()
		case 3:
			life = 0
		case 4: // still good
			life = near()
			nbf = -life + near()
			if nbf > -3 {
				nbf = -3
			}
			life += 12
		}
		if nbf < iat {
			iat = nbf
		}
		if nbf > 0 {
			iat = -1
		}
		switch r.Intn(6) { // not valid from the moment it is issued
		case 0:
			iat = 0
		case 1:
			iat -= near()
		case 2:
			if nbf < 0 {
				iat = nbf / 2
			}
		case 3: // issued in time to come
			if nbf > 0 {
				iat = nbf - nbf*r.Int63n(2)/2
			}
		}
		o = o.WithN(s, iat, nbf, life)
		for i := r.Intn(4); i > 0; i-- {
			o.N = append(o.N, int64(allCaps[r.Intn(len(allCaps))]))
		}
		return o
	}
	c.Ops = append(c.Ops, issue())
	for i := 4 + r.Intn(10); i > 0; i-- {
		switch r.Intn(14) {
		case 0, 1:
			c.Ops = append(c.Ops, issue())
		case 2, 3, 4, 5, 6:
			c.Ops = append(c.Ops, eng.O("Tamper", r.Pick(tampers...)).WithN(int64(r.Intn(100)), int64(r.Intn(5000)), int64(r.Intn(100))))
		case 7, 8:
			c.Ops = append(c.Ops, eng.O("Forge", r.Pick(forgeries...), r.Pick(ids...)))
		case 9:
			c.Ops = append(c.Ops, eng.O("Restart").WithN(int64(r.Intn(4)/3)))
		case 10:
			c.Ops = append(c.Ops, eng.O("BadKeys", r.Pick("mode", "mode", "garbage", "truncated", "missing"), r.Pick("", "x", "-----BEGIN RSA PUBLIC KEY-----\nAAAA\n-----END RSA PUBLIC KEY-----\n")).WithN([]int64{0644, 0666, 0664, 0646, 0777, 0600}[r.Intn(6)]))
		case 11:
			if r.Chance(1, 6) {
				c.Ops = append(c.Ops, eng.O("Generate").WithN(int64(r.Intn(2)), []int64{022, 022, 0, 027, 077, 002}[r.Intn(6)], int64(r.Intn(4)/3)))
			} else {
				c.Ops = append(c.Ops, eng.O("Login", r.Pick("a", "é", "x y", "b")).WithN([]int64{0, 3600, -30, -3600, 60}[r.Intn(5)]))
			}
		default:
			c.Ops = append(c.Ops, eng.O("Raw", r.Pick("", ".", "..", "a.b.c", "...", "e30.e30.", "eyJhbGciOiJSUzUxMiJ9.e30.", "{}", "null", "\x00", strings.Repeat("A", 5000))))
		}
	}
	return c
}

// enumJWT is every kind of tampering at every position of one token, and
// every forgery.
func enumJWT(tier string) []*eng.Case {
	var out []*eng.Case
	base := eng.O("Issue", "a").WithN(0, -60, -60, 600, 10, 20)
	rootT := eng.O("Issue", "r").WithN(0, -60, -60, 600, 0)
	add := func(ops ...eng.Op) {
		out = append(out, &eng.Case{Cfg: map[string]string{}, Ops: append([]eng.Op{base, rootT}, ops...)})
	}
	for _, f := range forgeries {
		add(eng.O("Forge", f, "a"))
	}
	seen := map[string]bool{}
	for _, k := range tampers {
		if !seen[k] && k != "bit" && k != "byte" && k != "cut" {
			for v := int64(0); v < 4; v++ {
				add(eng.O("Tamper", k).WithN(v&1, v, 1-v&1))
			}
		}
		seen[k] = true
	}
	step := 1
	if tier != "thorough" {
		step = 3
	}
	for i := 0; i < 600; i += step * 20 {
		var ops []eng.Op
		for j := i; j < i+step*20; j += step {
			ops = append(ops, eng.O("Tamper", "cut").WithN(0, int64(j), 0), eng.O("Tamper", "bit").WithN(0, int64(j), 0))
		}
		add(ops...)
	}
	return out
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C08", Name: "tokens", Quick: 2500, Deep: 60000,
		Rule:  "a token was issued and a tampered or forged one was presented",
		Scope: []string{"token", "crash"},
		Gen:   genJWT, Run: runJWT, Enum: enumJWT,
	})
}
