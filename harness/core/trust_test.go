//go:build go1.22

package core

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"

	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/zzv/eng"
	"github.com/netauth/netauth/pkg/netauth"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// ---- C34: the client speaks only to servers that it can trust ----

// pki is two authorities and what they vouched for.
type pki struct {
	ca    [2][]byte                             // PEM of the authorities
	certs map[string]map[string]tls.Certificate // kind and address
}

var (
	pkiOnce sync.Once
	thePKI  pki
)

func mkPKI() *pki {
	pkiOnce.Do(func() {
		thePKI.certs = map[string]map[string]tls.Certificate{}
		var cas [2]*x509.Certificate
		var keys [2]*ecdsa.PrivateKey
		serial := int64(1)
		mk := func(tmpl, parent *x509.Certificate, key, by *ecdsa.PrivateKey) ([]byte, *x509.Certificate) {
			serial++
			tmpl.SerialNumber = big.NewInt(serial)
			if tmpl.NotBefore.IsZero() {
				tmpl.NotBefore, tmpl.NotAfter = time.Now().Add(-time.Hour), time.Now().Add(48*time.Hour)
			}
			der, err := x509.CreateCertificate(crand.Reader, tmpl, parent, key.Public(), by)
			must(err)
			c, err := x509.ParseCertificate(der)
			must(err)
			return der, c
		}
		for i := range cas {
			k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
			must(err)
			// Alike but for the key.
			t := &x509.Certificate{Subject: pkix.Name{CommonName: "verif authority"}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
			der, c := mk(t, t, k, k)
			cas[i], keys[i] = c, k
			thePKI.ca[i] = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
		}
		for _, kind := range []string{"good", "other", "name", "expired", "early", "self", "client"} {
			thePKI.certs[kind] = map[string]tls.Certificate{}
			for _, ip := range []string{"127.0.0.1", "127.0.0.2"} {
				k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
				must(err)
				t := &x509.Certificate{Subject: pkix.Name{CommonName: "verif"}, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature,
					ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, IPAddresses: []net.IP{net.ParseIP(ip)}}
				if ip == "127.0.0.1" {
					t.DNSNames = []string{"localhost"}
				}
				ca := 0
				switch kind {
				case "other":
					ca = 1
				case "name":
					t.IPAddresses, t.DNSNames = []net.IP{net.ParseIP("127.0.0.3")}, []string{"verif.invalid"}
				case "expired":
					t.NotBefore, t.NotAfter = time.Now().Add(-48*time.Hour), time.Now().Add(-time.Hour)
				case "early":
					t.NotBefore, t.NotAfter = time.Now().Add(24*time.Hour), time.Now().Add(48*time.Hour)
				case "client":
					t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
				}
				by, parent := keys[ca], cas[ca]
				if kind == "self" {
					by, parent = k, t
				}
				der, _ := mk(t, parent, k, by)
				thePKI.certs[kind][ip] = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
			}
		}
	})
	return &thePKI
}

// wire is a listener that takes down what arrives.
type wire struct {
	net.Listener
	ep *endpoint
}

type wireConn struct {
	net.Conn
	ep *endpoint
}

func (w wire) Accept() (net.Conn, error) {
	c, err := w.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return wireConn{c, w.ep}, nil
}

func (c wireConn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	c.ep.mu.Lock()
	c.ep.got = append(c.ep.got, b[:n]...)
	c.ep.mu.Unlock()
	return n, err
}

// endpoint is something that listens where the client expects a server.
type endpoint struct {
	addr   string
	port   int
	kind   string
	mu     sync.Mutex
	got    []byte // as it came over the network
	calls  []string
	srv    *grpc.Server
	closer net.Listener
}

func (e *endpoint) intercept(_ context.Context, _ interface{}, info *grpc.UnaryServerInfo, _ grpc.UnaryHandler) (interface{}, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	m := filepath.Base(info.FullMethod)
	e.calls = append(e.calls, m)
	switch m {
	case "AuthGetToken":
		return &pb.AuthResult{Token: str("a token")}, nil
	case "EntityInfo", "EntitySearch", "GroupMembers":
		return &pb.ListOfEntities{Entities: []*types.Entity{{ID: str("e")}}}, nil
	case "GroupInfo":
		return &pb.ListOfGroups{Groups: []*types.Group{{Name: str("g")}}}, nil
	case "SystemStatus":
		return &pb.ServerStatus{}, nil
	}
	return &pb.Empty{}, nil
}

// open makes the endpoint what it is to be; it fails if the port is taken.
func (e *endpoint) open(kind string) error {
	e.kind = kind
	l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", e.addr, e.port))
	if err != nil {
		return err
	}
	e.port = l.Addr().(*net.TCPAddr).Port
	if kind == "none" {
		l.Close()
		return nil
	}
	l = wire{l, e}
	e.closer = l
	if kind == "raw" { // listens, and says nothing
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					c.SetDeadline(time.Now().Add(150 * time.Millisecond))
					b := make([]byte, 4096)
					for {
						if _, err := c.Read(b); err != nil {
							break
						}
					}
					c.Close()
				}()
			}
		}()
		return nil
	}
	opt := []grpc.ServerOption{grpc.UnaryInterceptor(e.intercept)}
	if kind != "plain" {
		opt = append(opt, grpc.Creds(credentials.NewServerTLSFromCert(&[]tls.Certificate{mkPKI().certs[kind][e.addr]}[0])))
	}
	e.srv = grpc.NewServer(opt...)
	pb.RegisterNetAuth2Server(e.srv, rpc2.New(rpc2.Refs{}, nullLog))
	go e.srv.Serve(l)
	return nil
}

func (e *endpoint) close() {
	if e.srv != nil {
		e.srv.Stop()
		e.srv = nil
	}
	if e.closer != nil {
		e.closer.Close()
		e.closer = nil
	}
}

func (e *endpoint) reached() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return len(e.calls)
}

var endpointKinds = []string{"good", "other", "name", "expired", "early", "self", "client", "plain", "raw", "none"}

func runTrust(t *eng.T, c *eng.Case) {
	known := set(endpointKinds...)
	k1, k2 := c.Cfg["server"], c.Cfg["master"]
	if !known[k1] || k2 != "" && !known[k2] {
		return
	}
	p := mkPKI()
	a, b := &endpoint{addr: "127.0.0.1"}, &endpoint{addr: "127.0.0.2"}
	for i := 0; ; i++ {
		a.port = 0
		must(a.open("plain"))
		a.close()
		b.port = a.port
		if a.open(k1) == nil {
			k := k2
			if k == "" {
				k = "none"
			}
			if b.open(k) == nil {
				break
			}
		}
		a.close()
		b.close()
		if i > 100 {
			panic("harness panic: no port")
		}
	}
	t.Cleanup(func() { a.close(); b.close() })

	// What the client is told.
	dir := scratch(t)
	insecure := c.Cfg["insecure"] == "yes"
	base := "trusted-" + filepath.Base(dir) + ".pem"
	file, rel := filepath.Join(dir, base), c.Cfg["path"] == "relative"
	in := "keys"
	if rel {
		if len(c.Ops)%2 == 0 {
			in = filepath.Join("tls", "of", "it")
		}
		must(os.MkdirAll(filepath.Join(dir, "sub", in), 0755))
		file = filepath.Join(dir, "sub", in, base)
	}
	holds := c.Cfg["file"]
	usable := true
	right := false
	bogus := []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n")
	switch c.Cfg["file"] {
	case "right":
		must(os.WriteFile(file, p.ca[0], 0644))
		right = true
	case "both":
		must(os.WriteFile(file, append(append([]byte("# two\n"), p.ca[1]...), p.ca[0]...), 0644))
		right = true
	case "other":
		must(os.WriteFile(file, p.ca[1], 0644))
	case "garbage":
		must(os.WriteFile(file, bogus, 0644))
		usable = false
	case "empty":
		must(os.WriteFile(file, nil, 0644))
		usable = false
	default:
		usable = false
	}
	// What lies where it would be wrong to look.
	must(os.MkdirAll(filepath.Join(dir, "keys"), 0755))
	for _, f := range []string{"keys/tls.pem", "keys/" + base, "sub/tls.pem", "sub/" + base, "sub/keys/tls.pem", "sub/keys/" + base} {
		i := 0
		if right {
			i = 1
		}
		if f := filepath.Join(dir, f); f != file {
			must(os.MkdirAll(filepath.Dir(f), 0755))
			must(os.WriteFile(f, p.ca[i], 0644))
		}
	}
	trusts := func(kind string) bool {
		if insecure {
			return kind == "plain"
		}
		return usable && (kind == "good" && right || kind == "other" && (holds == "other" || holds == "both"))
	}
	name := "127.0.0.1"
	if c.Cfg["name"] == "localhost" {
		name = "localhost"
	}
	viper.Set("core.server", name)
	viper.Set("core.master", "")
	if k2 != "" {
		viper.Set("core.master", "127.0.0.2")
	}
	viper.Set("core.port", a.port)
	viper.Set("core.conf", dir)
	viper.Set("tls.certificate", file)
	if rel {
		viper.Set("core.conf", filepath.Join(dir, "sub"))
		viper.Set("tls.certificate", filepath.Join(in, base))
	}
	viper.Set("tls.pwn_me", insecure)
	if c.Cfg["insecure"] == "text" {
		viper.Set("tls.pwn_me", "false")
	}
	viper.Set("token.cache", "memory")
	viper.Set("token.backend", "verif-none")
	t.Cleanup(func() { viper.Set("tls.pwn_me", false) })
	cl, err := netauth.NewWithLog(hclog.NewNullLogger())
	t.Tracef("client for %s (%s), master %q, %v -> %v", name, k1, k2, c.Cfg, err)
	if err != nil {
		if usable || insecure {
			t.Failf("trust:refused", "the client cannot be made, although its certificate file is good: %v", err)
		}
		t.Class("no-client")
		t.NonTrivial()
		return
	}
	cl.SetServiceName("verif")
	cur, swapped := a, map[*endpoint]bool{}
	words := []string{}
	if !insecure && !usable {
		t.Class("unusable-file-accepted") // as long as nobody is trusted for it
	}
	yes, no, swaps := 0, 0, 0
	for i, o := range c.Ops {
		if o.K == "Client" { // another one, of the same settings or others
			switch o.Int(0) {
			case 1, 3: // the certificate file is another one, or there is another one in its place
				n := file
				if o.Int(0) == 1 {
					n = filepath.Join(dir, fmt.Sprintf("%d-%s", i, base))
				}
				holds = map[bool]string{true: "other", false: "right"}[holds == "right" || holds == "both"]
				right, usable = holds == "right", true
				must(os.WriteFile(n, p.ca[map[bool]int{true: 1}[!right]], 0644))
				viper.Set("tls.certificate", n)
				file = n
			case 2:
				if !usable {
					continue
				}
				insecure = !insecure
				viper.Set("tls.pwn_me", insecure)
			}
			t.Class(fmt.Sprintf("another-client-%d", o.Int(0)))
			if cl, err = netauth.NewWithLog(hclog.NewNullLogger()); err != nil {
				t.Failf("trust:refused", "another client cannot be made: %v", err)
			}
			cl.SetServiceName("verif")
			cur, swapped = a, map[*endpoint]bool{}
			t.Tracef("another client: the certificate is %s, insecure %v", holds, insecure)
			continue
		}
		if o.K == "Swap" {
			e := a
			if o.Int(0) != 0 && k2 != "" {
				e = b
			}
			if !known[o.Str(0)] {
				continue
			}
			e.close()
			var err error
			for j := 0; j < 200; j++ {
				if err = e.open(o.Str(0)); err == nil {
					break
				}
				time.Sleep(time.Millisecond)
			}
			if err != nil {
				t.Abandon("the port is gone: %v", err)
			}
			swapped[e] = true
			swaps++
			t.Tracef("%s is now %s", e.addr, o.Str(0))
			continue
		}
		w := fmt.Sprintf("zqword%dxyzzy", i)
		if !insecure {
			words = append(words, w)
		}
		ctx, cancel := context.WithTimeout(netauth.Authorize(context.Background(), "zqtoken"+w), 20*time.Second)
		writes := false
		na, nb := a.reached(), b.reached()
		var err error
		start := time.Now()
		switch o.K {
		case "AuthEntity":
			err = cl.AuthEntity(ctx, "zqid"+w, w)
		case "AuthGetToken":
			_, err = cl.AuthGetToken(ctx, "zqid"+w, w)
		case "AuthValidateToken":
			err = cl.AuthValidateToken(ctx, w)
		case "EntityInfo":
			_, err = cl.EntityInfo(ctx, w)
		case "EntitySearch":
			_, err = cl.EntitySearch(ctx, w)
		case "GroupMembers":
			_, err = cl.GroupMembers(ctx, w)
		case "SystemStatus":
			_, err = cl.SystemStatus(ctx)
		case "EntityCreate":
			err, writes = cl.EntityCreate(ctx, w, w, 3), true
		case "AuthChangeSecret":
			err, writes = cl.AuthChangeSecret(ctx, "zqid"+w, w, "zqold"+w), true
		case "GroupAddMember":
			err, writes = cl.GroupAddMember(ctx, "zqgroup"+w, w), true
		case "EntityUMW":
			_, err = cl.EntityUM(ctx, w, "UPSERT", "k", w)
			writes = true
		case "EntityLock":
			err, writes = cl.EntityLock(ctx, w), true
		}
		cancel()
		if writes && k2 != "" {
			cur = b
		}
		da, db := a.reached()-na, b.reached()-nb
		t.Tracef("%s to %s (%s) -> %v, %v; requests received: %d, %d", o.K, cur.addr, cur.kind, status.Code(err), time.Since(start).Round(time.Millisecond), da, db)
		ok := trusts(cur.kind)
		if !ok {
			no++
			t.Class("untrusted:" + cur.kind)
			if da+db != 0 || err == nil {
				t.Failf("trust:spoken", "%s was performed by a server (%s) that the client has no reason to trust (its settings: %v, certificate %s, insecure %v): %v", o.K, cur.kind, c.Cfg, holds, insecure, err)
			}
			continue
		}
		d, e := da, db
		if cur == b {
			d, e = db, da
		}
		if e != 0 {
			t.Failf("trust:other", "%s went to the other server", o.K)
		}
		if swapped[cur] {
			t.Class("trusted-after-swap") // the client may be waiting to try again
			continue
		}
		yes++
		t.Class("trusted:" + cur.kind)
		if err != nil || d != 1 {
			if status.Code(err) == codes.DeadlineExceeded {
				t.Abandon("too slow")
			}
			t.Failf("trust:refused", "%s fails with %v after %d requests, with a server (%s) that the client was told to trust", o.K, err, d, cur.kind)
		}
	}
	for _, e := range []*endpoint{a, b} {
		e.mu.Lock()
		for _, w := range words {
			if i := bytes.Index(e.got, []byte(w)); i >= 0 {
				t.Failf("trust:clear", "what %s received in the clear contains %q", e.addr, w)
			}
		}
		e.mu.Unlock()
	}
	if yes > 0 && no > 0 || no > 1 || swaps > 0 && yes > 0 {
		t.NonTrivial()
	}
}

var trustOps = []string{"AuthEntity", "AuthGetToken", "AuthValidateToken", "EntityInfo", "EntitySearch", "GroupMembers", "SystemStatus", "EntityCreate", "AuthChangeSecret", "GroupAddMember", "EntityUMW", "EntityLock"}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C34", Name: "client-trust", Quick: 1200, Deep: 25000, Retries: 4, MaxSeconds: 120,
		Rule:  "requests were made both to a server to be trusted and to one not to be, or to several of the latter kind, or a server was replaced while it was in use",
		Scope: []string{"trust", "crash"},
		Gen: func(r eng.R) *eng.Case {
			kind := func() string {
				if r.Chance(2, 5) {
					return "good"
				}
				return r.Pick(endpointKinds...)
			}
			c := &eng.Case{Cfg: map[string]string{
				"server": kind(), "file": r.Weighted("right", 14, "both", 3, "other", 2, "garbage", 1, "empty", 1, "missing", 1),
				"path": r.Pick("absolute", "relative"), "insecure": r.Weighted("no", 12, "text", 1, "yes", 2), "name": r.Weighted("address", 2, "localhost", 1)}}
			if r.Chance(1, 2) {
				c.Cfg["master"] = kind()
			}
			for i := 2 + r.Intn(5); i > 0; i-- {
				if r.Chance(1, 6) {
					c.Ops = append(c.Ops, eng.O("Swap", kind()).WithN(int64(r.Intn(2))))
				}
				if r.Chance(1, 8) {
					c.Ops = append(c.Ops, eng.O("Client").WithN(int64(r.Intn(4))))
				}
				c.Ops = append(c.Ops, eng.O(r.Pick(trustOps...)))
			}
			return c
		},
		Run: runTrust,
		Enum: func(tier string) (out []*eng.Case) {
			// First, what one client may leave to the next, while no other case has.
			for i := 0; i < 32; i++ {
				c := &eng.Case{Cfg: map[string]string{"server": []string{"good", "plain", "other", "good"}[i%4], "file": "right", "path": "relative", "insecure": []string{"no", "yes"}[i/4%2], "name": "address"}}
				for j := 0; j < 3; j++ {
					c.Ops = append(c.Ops, eng.O("AuthEntity"), eng.O("Client").WithN(int64([]int{2, 3, 1, 2}[(i/8+j)%4])))
				}
				c.Ops = append(c.Ops, eng.O("AuthGetToken"), eng.O("EntityCreate"))
				out = append(out, c)
			}
			for _, f := range []string{"right", "both", "other", "garbage", "empty", "missing"} {
				for _, k := range endpointKinds {
					for _, ins := range []string{"no", "yes"} {
						for _, m := range []string{"", k} {
							s := k
							if m != "" {
								s = "good"
							}
							c := &eng.Case{Cfg: map[string]string{"server": s, "file": f, "path": "relative", "insecure": ins, "name": "address"}}
							if m != "" {
								c.Cfg["master"] = m
							}
							c.Ops = []eng.Op{eng.O("AuthEntity"), eng.O("AuthChangeSecret"), eng.O("EntityInfo")}
							out = append(out, c)
						}
					}
				}
			}
			return
		},
	})
}
