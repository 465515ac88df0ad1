//go:build go1.22

package core

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"

	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/zzv/eng"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// ---- C33: the server program ----

// daemon is one netauthd with its directories.
type daemon struct {
	t          *eng.T
	h          *hist
	bin, dir   string
	conf, home string
	addr       string
	port       int
	secure     bool
	ownKeys    bool // the server made its keys itself
	killAfter  time.Duration
	killAt     []string // strace's arguments that end the server at a system call
	env        []string // more of the environment
	cmd        *exec.Cmd
	done       chan bool
	log        string
	conn       *grpc.ClientConn
}

// settings are what a start of the server is given.
type settings struct {
	boot     string
	readonly bool
	tls      bool
	layout   int // 1: the certificate by its absolute name; 2: core.conf elsewhere; 0: all beside the configuration
	lifetime string
	flags    bool // settings as flags rather than in the file
	extra    []string
	over     map[string]string // settings that replace others; "-" to leave one out
}

func newDaemon(t *eng.T, backend string) *daemon {
	boot()
	d := &daemon{t: t, bin: os.Getenv("VERIF_NETAUTHD"), dir: scratch(t)}
	if d.bin == "" {
		panic("harness panic: no VERIF_NETAUTHD")
	}
	d.conf, d.home = filepath.Join(d.dir, "conf"), filepath.Join(d.dir, "home")
	must(os.MkdirAll(filepath.Join(d.conf, "keys"), 0755))
	must(os.MkdirAll(d.home, 0755))
	p := os.Getpid()
	d.addr = fmt.Sprintf("127.%d.%d.%d", 1+p>>14&127, p>>7&127, 1+p&127)
	l, err := net.Listen("tcp", d.addr+":0")
	must(err)
	d.port = l.Addr().(*net.TCPAddr).Port
	l.Close()
	w := &World{t: t, backend: backend, cryptoN: "bcrypt", home: d.home, tok: newRSA(keyDir(0))}
	d.h = &hist{t: t, w: w, m: newModel(), secretSeen: map[string]bool{}}
	w.list = func() (ents, grps map[string]bool, strays []string) {
		// The store belongs to the other process.
		ents, grps = map[string]bool{}, map[string]bool{}
		for id := range d.h.m.ents {
			ents[id] = true
		}
		for n := range d.h.m.grps {
			grps[n] = true
		}
		return
	}
	t.Cleanup(func() {
		if d.cmd != nil {
			d.cmd.Process.Kill()
			<-d.done
		}
		if d.conn != nil {
			d.conn.Close()
		}
	})
	return d
}

var (
	tlsOnce       sync.Once
	tlsPEM        [2][2][]byte // certificate and key, twice
	tlsPool       [2]*x509.CertPool
	daemonBackend = []string{"filesystem", "bitcask"}
)

// tlsFiles makes two certificates for any loopback address in use here.
func tlsFiles(ip string) {
	tlsOnce.Do(func() {
		for i := range tlsPEM {
			k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			must(err)
			c := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
				IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, IPAddresses: []net.IP{net.ParseIP(ip)}}
			der, err := x509.CreateCertificate(rand.Reader, c, c, k.Public(), k)
			must(err)
			kd, err := x509.MarshalECPrivateKey(k)
			must(err)
			tlsPEM[i][0] = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
			tlsPEM[i][1] = pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd})
			tlsPool[i] = x509.NewCertPool()
			tlsPool[i].AppendCertsFromPEM(tlsPEM[i][0])
		}
	})
}

// start starts the server and says whether it serves.
func (d *daemon) start(s settings) bool {
	set := map[string]string{
		"core.home": fmt.Sprintf("%q", d.home), "server.bind": fmt.Sprintf("%q", d.addr), "server.port": fmt.Sprint(d.port),
		"db.backend": fmt.Sprintf("%q", d.h.w.backend), "crypto.bcrypt.cost": "4",
	}
	if s.lifetime != "" {
		set["token.lifetime"] = fmt.Sprintf("%q", s.lifetime)
	}
	if s.readonly {
		set["server.readonly"] = "true"
	}
	away := filepath.Join(d.dir, "away")
	if s.tls {
		tlsFiles(d.addr)
		cert := func(i int, dir string) {
			must(os.MkdirAll(filepath.Join(dir, "keys"), 0755))
			must(os.WriteFile(filepath.Join(dir, "keys", "tls.pem"), tlsPEM[i][0], 0644))
			must(os.WriteFile(filepath.Join(dir, "keys", "tls.key"), tlsPEM[i][1], 0600))
		}
		set["tls.certificate"], set["tls.key"] = `"keys/tls.pem"`, `"keys/tls.key"`
		switch s.layout {
		case 0:
			cert(0, d.conf)
		case 1:
			// The one that is not to be used lies where a relative name leads.
			cert(1, d.conf)
			cert(0, away)
			cert(1, filepath.Join(d.conf, away))
			set["tls.certificate"], set["tls.key"] = fmt.Sprintf("%q", filepath.Join(away, "keys/tls.pem")), fmt.Sprintf("%q", filepath.Join(away, "keys/tls.key"))
		case 2:
			cert(1, d.conf)
			cert(0, away)
		}
	}
	for f, m := range map[string]os.FileMode{"token.pem": 0644, "token.key": 0400} {
		for i, dir := range map[int]string{0: d.conf, 1: away} {
			if s.layout == 2 {
				i = 1 - i
			}
			if dir == d.conf && (s.over["keys"] != "" || d.ownKeys) {
				continue
			}
			b, err := os.ReadFile(filepath.Join(keyDir(i), "keys", f))
			must(err)
			must(os.MkdirAll(filepath.Join(dir, "keys"), 0755))
			os.Remove(filepath.Join(dir, "keys", f))
			must(os.WriteFile(filepath.Join(dir, "keys", f), b, m))
		}
	}
	if s.layout == 2 {
		set["core.conf"] = fmt.Sprintf("%q", away)
	}
	for k, v := range s.over {
		set[k] = v
		if v == "-" {
			delete(set, k)
		}
	}
	var args []string
	sections := map[string]string{}
	for k, v := range set {
		if !strings.Contains(k, ".") {
			continue
		}
		if s.flags && k != "server.readonly" {
			args = append(args, "--"+k+"="+strings.Trim(v, `"`))
			continue
		}
		i := strings.IndexByte(k, '.')
		if k == "crypto.bcrypt.cost" {
			sections["crypto.bcrypt"] += "cost = " + v + "\n"
			continue
		}
		sections[k[:i]] += k[i+1:] + " = " + v + "\n"
	}
	cfg := ""
	for n, b := range sections {
		cfg += "[" + n + "]\n" + b
	}
	if set["config"] != "none" {
		must(os.WriteFile(filepath.Join(d.conf, "config.toml"), []byte(cfg), 0644))
	} else {
		os.Remove(filepath.Join(d.conf, "config.toml"))
	}
	if s.boot != "" {
		args = append(args, "--server.bootstrap="+s.boot)
	}
	if !s.tls && set["secure"] == "" {
		args = append(args, "--tls.PWN_ME")
	}
	args = append(args, s.extra...)
	d.cmd = exec.Command(d.bin, args...)
	if len(d.killAt) > 0 {
		d.cmd = exec.Command("strace", append(append(append([]string{"-f", "-qq", "-o", "/dev/null", "--kill-on-exit"}, d.killAt...), d.bin), args...)...)
		d.killAt = nil
	}
	d.cmd.Dir = d.conf
	d.cmd.Env = []string{"HOME=" + d.dir, "TMPDIR=" + d.dir, "PATH=/usr/bin:/bin"}
	d.cmd.Env = append(d.cmd.Env, d.env...)
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	d.log = filepath.Join(d.dir, "log")
	lf, err := os.Create(d.log)
	must(err)
	d.cmd.Stdout, d.cmd.Stderr = lf, lf
	must(d.cmd.Start())
	lf.Close()
	if n := d.killAfter; n > 0 {
		d.killAfter = 0
		go func(p *os.Process) { time.Sleep(n); p.Kill() }(d.cmd.Process)
	}
	d.done = make(chan bool)
	go func(c *exec.Cmd, done chan bool) { c.Wait(); close(done) }(d.cmd, d.done)
	d.secure = s.tls
	addr := fmt.Sprintf("%s:%d", d.addr, d.port)
	for end := time.Now().Add(30 * time.Second); ; {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
			break
		}
		select {
		case <-d.done:
			d.checkLog()
			d.cmd = nil
			return false
		case <-time.After(2 * time.Millisecond):
		}
		if time.Now().After(end) {
			d.t.Failf("live:start", "the server neither serves nor ends: %s", d.tail())
		}
	}
	if d.conn != nil {
		d.conn.Close()
	}
	d.conn = d.dial(s.tls, 0)
	d.h.w.remote = pb.NewNetAuth2Client(d.conn)
	return true
}

// abort starts the server and kills it a little later.
func (d *daemon) abort(s settings, us int64) {
	if us <= 0 || us > 1000000 {
		return
	}
	d.killAfter = time.Duration(us) * time.Microsecond
	if d.start(s) {
		<-d.done
		d.checkLog()
		d.cmd = nil
		d.conn.Close()
		d.conn = nil
		d.t.Class("aborted:late")
	} else {
		d.t.Class("aborted")
	}
}

// abortAt starts the server and ends it at the nth of its system calls that
// have to do with the files.
func (d *daemon) abortAt(s settings, nth int64, calls string, files ...string) {
	straceOnce.Do(func() {
		straceOK = exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "--kill-on-exit", "-e", "trace=renameat", "-e", "inject=renameat:signal=KILL:when=9", "-P", "/nonexistent", "true").Run() == nil
	})
	if !straceOK || nth <= 0 || nth > 1000 {
		d.t.Class("aborted-at:not")
		return
	}
	if calls == "" {
		calls = "openat,write,fsync,fchmod,fchmodat,renameat,renameat2,unlinkat,newfstatat,ftruncate"
	}
	d.killAt = []string{"-e", "trace=" + calls, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", calls, nth)}
	for _, f := range files {
		d.killAt = append(d.killAt, "-P", f)
	}
	if d.start(s) {
		d.t.Class("aborted-at:late")
		d.cmd.Process.Kill()
		<-d.done
		d.cmd = nil
		d.conn.Close()
		d.conn = nil
		// What it traced ends with it.
		for i := 0; i < 1000; i++ {
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", d.addr, d.port))
			if err == nil {
				l.Close()
				return
			}
			time.Sleep(5 * time.Millisecond)
		}
		panic("harness panic: the traced server does not end")
	}
	d.t.Class(fmt.Sprintf("aborted-at:%s", calls[:5]))
}

var (
	straceOnce sync.Once
	straceOK   bool
)

func (d *daemon) dial(secure bool, pool int) *grpc.ClientConn {
	opt := grpc.WithInsecure()
	if secure {
		opt = grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{RootCAs: tlsPool[pool]}))
	}
	conn, err := grpc.Dial(fmt.Sprintf("%s:%d", d.addr, d.port), opt)
	must(err)
	return conn
}

func (d *daemon) tail() string {
	b, _ := os.ReadFile(d.log)
	if len(b) > 700 {
		b = b[len(b)-700:]
	}
	return string(b)
}

// checkLog looks for a crash of the server.
func (d *daemon) checkLog() {
	b, _ := os.ReadFile(d.log)
	if s := string(b); strings.Contains(s, "\ngoroutine ") && (strings.Contains(s, "panic: ") || strings.Contains(s, "fatal error: ")) {
		i := strings.Index(s, "panic: ")
		if i < 0 {
			i = strings.Index(s, "fatal error: ")
		}
		d.t.Failf("live:crash", "the server crashes: %s", clip(s[i:]))
	}
}

// alive says that the server did not end by itself.
func (d *daemon) alive() {
	select {
	case <-d.done:
		d.checkLog()
		d.t.Failf("live:crash", "the server ended by itself: %s", d.tail())
	default:
	}
}

// stop ends the server and compares what it left with the model.
func (d *daemon) stop(how string) {
	if d.cmd == nil {
		return
	}
	d.alive()
	if how == "term" {
		must(d.cmd.Process.Signal(syscall.SIGTERM))
		select {
		case <-d.done:
		case <-time.After(30 * time.Second):
			d.t.Failf("live:term", "the server does not end when told to")
		}
		if c := d.cmd.ProcessState.ExitCode(); c != 0 {
			d.t.Failf("live:term", "told to end, the server exits with %d: %s", c, d.tail())
		}
	} else {
		must(d.cmd.Process.Kill())
		<-d.done
	}
	d.checkLog()
	d.cmd = nil
	d.conn.Close()
	d.conn = nil
}

// onDisk compares the objects in the store with those of the model.
func (d *daemon) onDisk() (ms []mismatch) {
	got := readStore(d.t, d.home, d.h.w.backend)
	want := map[string]bool{}
	for id := range d.h.m.ents {
		want["/entities/"+id] = true
	}
	for n := range d.h.m.grps {
		want["/groups/"+n] = true
	}
	for k := range want {
		if _, there := got[k]; !there {
			ms = append(ms, mismatch{"live:lost", fmt.Sprintf("%q is not in the store of the ended server", k)})
		}
	}
	for k := range got {
		if !want[k] {
			ms = append(ms, mismatch{"live:ghost", fmt.Sprintf("%q is in the store of the ended server", k)})
		}
	}
	return
}

// look checks signing in and the tokens.
func (d *daemon) look(lifetime time.Duration) {
	h := d.h
	n := 0
	for id, e := range h.m.ents {
		if n++; n > 3 || !e.secretOK {
			continue
		}
		ok := !e.locked && e.secret != ""
		_, code := h.w.Call("AuthEntity", "", &pb.AuthRequest{Entity: ent(id), Secret: str(e.secret)})
		if (code == codes.OK) != ok {
			d.t.Failf("live:auth", "signing in as %q with the right secret: %v, want success %v", id, code, ok)
		}
		if _, code := h.w.Call("AuthEntity", "", &pb.AuthRequest{Entity: ent(id), Secret: str(e.secret + "x")}); code == codes.OK {
			d.t.Failf("live:auth", "signing in as %q with a wrong secret succeeds", id)
		}
		r, code := h.w.Call("AuthGetToken", "", &pb.AuthRequest{Entity: ent(id), Secret: str(e.secret)})
		if (code == codes.OK) != ok {
			d.t.Failf("live:auth", "a token for %q: %v, want success %v", id, code, ok)
		}
		if !ok {
			continue
		}
		tok := r.(*pb.AuthResult).GetToken()
		cl, err := h.w.tok.Validate(tok)
		if err != nil {
			d.t.Failf("live:token", "the token for %q does not hold: %v", id, err)
		}
		if cl.EntityID != id {
			d.t.Failf("live:token", "the token for %q is one for %q", id, cl.EntityID)
		}
		var got []string
		for _, c := range cl.Capabilities {
			got = append(got, c.String())
		}
		if want := h.m.effCaps(id); !same(sorted(got), sorted(want)) {
			d.t.Failf("live:token", "the token for %q carries %q, want %q", id, got, want)
		}
		b, err := base64.RawURLEncoding.DecodeString(strings.Split(tok, ".")[1])
		must(err)
		var times struct{ Exp, Nbf, Iat int64 }
		must(json.Unmarshal(b, &times))
		// Begin and end are cut to seconds.
		if x := time.Duration(times.Exp-times.Nbf) * time.Second; x > lifetime || x <= lifetime-time.Second {
			d.t.Failf("live:lifetime", "the token for %q is good for %v, want %v", id, x, lifetime)
		}
		if x := time.Since(time.Unix(times.Nbf, 0)); x < -time.Second || x > time.Minute {
			d.t.Failf("live:lifetime", "the token for %q is good from %v ago", id, x)
		}
	}
}

// transport checks that nobody is answered in a way that was not asked for.
func (d *daemon) transport() {
	ask := func(conn *grpc.ClientConn) error {
		defer conn.Close()
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		_, err := pb.NewNetAuth2Client(conn).SystemPing(ctx, &pb.Empty{})
		return err
	}
	if d.secure {
		if err := ask(d.dial(false, 0)); err == nil {
			d.t.Failf("live:tls", "the server answers without TLS although that was not allowed")
		}
		if err := ask(d.dial(true, 1)); err == nil {
			d.t.Failf("live:tls", "the server uses a certificate that it was not given")
		}
	} else {
		tlsFiles(d.addr)
	}
	if err := ask(d.dial(d.secure, 0)); err != nil {
		d.t.Failf("live:tls", "the server does not answer as it was told to (TLS: %v): %v", d.secure, err)
	}
}

// single are the operations that change one value at most.
var single = set("ECreate", "EDestroy", "GDestroy", "MAdd", "MDel", "ELock", "EUnlock", "EUpdate", "EUM", "EKV", "EKey", "ESecret", "Cap", "GCreate", "GUpdate", "GUM", "GKV", "GRule")

// existence are those of them that say which objects there are.
var existence = set("ECreate", "GCreate", "EDestroy", "GDestroy")

// apart are those of them that change nothing but their target.
var apart = set("MAdd", "MDel", "ELock", "EUnlock", "EUpdate", "EUM", "EKV", "EKey", "GUM", "GKV")

func runLive(t *eng.T, c *eng.Case) {
	b := c.Cfg["backend"]
	if b != "filesystem" && b != "bitcask" {
		return
	}
	d := newDaemon(t, b)
	h := d.h
	cur := settings{}
	life := 10 * time.Minute
	if !d.start(cur) {
		t.Failf("live:start", "the server does not start: %s", d.tail())
	}
	starts, crashes := 0, 0
	resume := func(o eng.Op, how string) {
		for _, m := range d.onDisk() {
			t.Failf(m.aspect, "after %s: %s", how, m.msg)
		}
		if !d.start(cur) {
			t.Failf("live:start", "after %s, the server does not start: %s", how, d.tail())
		}
		starts++
	}
	for _, o := range c.Ops {
		if d.cmd != nil {
			d.alive()
		}
		switch o.K {
		case "Next":
			how := o.Str(0)
			d.stop(how)
			cur = settings{readonly: o.Int(0) != 0, tls: o.Int(1) != 0, flags: o.Int(3) != 0, layout: int(o.Int(4) % 3)}
			if cur.layout < 0 || d.ownKeys {
				cur.layout = 0
			}
			life = 10 * time.Minute
			if n := o.Int(2); n > 0 && n < 100000 {
				life = time.Duration(n) * 250 * time.Millisecond
				cur.lifetime = life.String()
			}
			bs := o.Str(1)
			if bs != "" && !strings.ContainsRune(bs, 0) {
				cur.boot = bs
			}
			t.Tracef("%s, then %+v", how, cur)
			for _, m := range d.onDisk() {
				t.Failf(m.aspect, "after %s: %s", how, m.msg)
			}
			if i := strings.Index(cur.boot, ":"); cur.boot != "" {
				id, sec := cur.boot, ""
				if i >= 0 {
					id, sec = cur.boot[:i], cur.boot[i+1:]
				}
				if i < 0 {
					if d.start(cur) {
						t.Failf("live:boot", "the server starts with the bootstrap string %q", cur.boot)
					}
					cur.boot = ""
				} else if !validName(id) || h.hostile(id) || sec == "" || len(sec) > 72 {
					cur.boot = ""
				} else {
					e := h.m.ents[id]
					if e == nil {
						n, fits := h.m.nextEnt()
						if !fits {
							cur.boot = ""
						} else {
							e = newMent()
							e.num = n
							h.m.ents[id] = e
						}
					}
					if cur.boot != "" {
						e.secret, e.secretOK, e.locked = sec, true, false
						e.caps[types.Capability_GLOBAL_ROOT] = true
						t.Class("boot")
					}
				}
			}
			d.abort(cur, o.Int(5))
			if !d.start(cur) {
				t.Failf("live:start", "the server does not start with %+v: %s", cur, d.tail())
			}
			cur.boot = ""
			starts++
			h.judge(o, h.compare("live:state"))
			d.look(life)
			d.transport()
		case "Crash":
			xs := o.Sub
			if len(xs) == 0 || len(xs) > 4 || cur.readonly {
				continue
			}
			targets, usable := map[string]bool{}, true
			for _, x := range xs {
				k := x.K + " " + x.Str(0)
				if len(xs) > 1 {
					// Requests at the same time have nothing to do with one another.
					k = x.Str(0)
					usable = usable && apart[x.K]
				}
				usable = usable && single[x.K] && !targets[k] && !h.plan(x).free
				if x.K == "MAdd" || x.K == "MDel" {
					// Each group is a change of its own.
					usable = usable && len(x.S) == 2
				}
				targets[k] = true
			}
			if !usable {
				continue
			}
			how := "a crash"
			codesOf := make([]codes.Code, len(xs))
			var wg sync.WaitGroup
			for i, x := range xs {
				p := h.plan(x)
				tok := h.w.Root()
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					_, codesOf[i], _ = h.w.TryCall(p.method, tok, p.req)
				}(i)
			}
			time.Sleep(time.Duration(o.Int(0)%20000) * time.Microsecond)
			if o.Int(1) != 0 {
				how = "an end in the middle of requests"
				must(d.cmd.Process.Signal(syscall.SIGTERM))
				select {
				case <-d.done:
				case <-time.After(30 * time.Second):
					t.Failf("live:term", "the server does not end when told to")
				}
				if c := d.cmd.ProcessState.ExitCode(); c != 0 {
					t.Failf("live:term", "told to end, the server exits with %d: %s", c, d.tail())
				}
			} else {
				d.cmd.Process.Kill()
				<-d.done
			}
			wg.Wait()
			d.checkLog()
			d.cmd = nil
			d.conn.Close()
			d.conn = nil
			crashes++
			var open []eng.Op // may have taken effect
			for i, x := range xs {
				t.Tracef("%s -> %v, %s after %d us", opStr(x), codesOf[i], how, o.Int(0)%20000)
				p := h.plan(x)
				switch {
				case codesOf[i] == codes.OK:
					t.Class("crash:acknowledged")
					if p.mutate != nil {
						p.mutate()
					}
				case codesOf[i] == codes.Unavailable:
					t.Class("crash:unanswered")
					if p.mutate != nil {
						open = append(open, x)
					}
				}
			}
			// Which objects there are says whether one came or went.
			if len(open) == 1 && existence[open[0].K] {
				if ms := d.onDisk(); len(ms) > 0 {
					h.plan(open[0]).mutate()
					t.Class("crash:effective")
				}
				open = nil
			}
			resume(xs[0], how)
			if len(open) == 1 && open[0].K == "ESecret" {
				x := open[0]
				if e := h.m.ents[x.Str(0)]; e != nil {
					// Only signing in tells which secret it is.
					_, code := h.w.Call("AuthEntity", "", &pb.AuthRequest{Entity: ent(x.Str(0)), Secret: str(x.Str(1))})
					if code == codes.OK {
						h.plan(x).mutate()
						t.Class("crash:effective")
					} else if e.locked || e.secret == "" {
						e.secretOK = false
					}
				}
				open = nil
			}
			was := h.m
			var first []mismatch
			for bits := 0; bits < 1<<len(open); bits++ {
				h.m = was.clone()
				for i, x := range open {
					if bits>>i&1 != 0 {
						h.plan(x).mutate()
					}
				}
				ms := h.compare("live:state")
				if bits == 0 {
					first = ms
				}
				if len(ms) == 0 {
					first = nil
					if bits != 0 {
						t.Class("crash:effective")
					}
					break
				}
			}
			if first != nil {
				h.m = was
				h.judge(o, first)
			}
			d.look(life)
		case "Keys":
			// The server is to make its own keys, and to keep them.
			if cur.layout == 2 {
				continue
			}
			d.stop(o.Str(0))
			k := filepath.Join(d.conf, "keys")
			var old string
			if o.Int(0) != 0 || !d.ownKeys {
				var err error
				old, err = h.w.tok.Generate(token.Claims{EntityID: "verif operator", Capabilities: []types.Capability{types.Capability_GLOBAL_ROOT}}, token.GetConfig())
				must(err)
				os.Remove(filepath.Join(k, "token.pem"))
				os.Remove(filepath.Join(k, "token.key"))
			}
			if o.Int(1) != 0 {
				must(os.MkdirAll(k, 0755))
			} else if old != "" {
				os.Remove(k) // if nothing else is in it
			}
			d.ownKeys = true
			s := cur
			s.over = map[string]string{"token.jwt.generate": "true", "token.jwt.bits": "1024"}
			if d.abort(s, o.Int(2)); o.Int(3) != 0 {
				pem, key := filepath.Join(k, "token.pem"), filepath.Join(k, "token.key")
				which := [][]string{{pem}, {key}, {pem, key}}[(o.Int(4)%3+3)%3]
				d.abortAt(s, o.Int(3), []string{"renameat,renameat2", "write", "openat", "newfstatat", ""}[(o.Int(5)%5+5)%5], which...)
			}
			if !d.start(s) {
				t.Failf("live:keys", "the server does not start with keys of its own making: %s", d.tail())
			}
			starts++
			for f, m := range map[string]os.FileMode{"token.pem": 0644, "token.key": 0400} {
				if fi, err := os.Stat(filepath.Join(k, f)); err != nil || fi.Mode() != m {
					t.Failf("live:keys", "the key %s that the server made: %v, %v, want mode %v", f, fi, err, m)
				}
			}
			if old != "" {
				h.w.tok = newRSA(d.conf)
				if _, code := h.w.Call("EntityCreate", old, entReq("anew")); code != codes.Unauthenticated && !cur.readonly {
					t.Failf("live:keys", "after the keys were replaced, a token signed with the former ones: %v", code)
				}
			}
			t.Class(fmt.Sprintf("keys:%v", old != ""))
			h.judge(o, h.compare("live:state"))
			d.look(life)
		case "Refuse":
			// The server must not start, or not serve, with these settings.
			d.stop("kill")
			s := settings{over: map[string]string{}}
			undo := func() {}
			switch o.Str(0) {
			case "db", "crypto", "token":
				s.over[o.Str(0)+".backend"] = `"nosuch"`
			case "config":
				s.over["config"], s.flags = "none", true
			case "tls":
				// No certificate, and no leave to do without.
				s.over["secure"] = "1"
				s.over["tls.certificate"], s.over["tls.key"] = `"keys/none.pem"`, `"keys/none.key"`
			case "bind":
				s.over["server.bind"] = `"203.0.113.77"`
			case "store":
				must(os.Rename(d.home, d.home+".aside"))
				must(os.WriteFile(d.home, []byte("not a directory"), 0644))
				undo = func() { os.RemoveAll(d.home); must(os.Rename(d.home+".aside", d.home)) }
			case "keys":
				s.over["keys"] = "none"
				k := filepath.Join(d.conf, "keys")
				must(os.Rename(k, k+".aside"))
				undo = func() { os.RemoveAll(k); must(os.Rename(k+".aside", k)) }
			default:
				if !d.start(cur) {
					t.Failf("live:start", "the server does not start: %s", d.tail())
				}
				continue
			}
			t.Tracef("refused: %s", o.Str(0))
			if d.start(s) {
				t.Failf("live:refuse", "the server starts although something is wrong: %s", o.Str(0))
			}
			undo()
			t.Class("refused:" + o.Str(0))
			resume(o, "a refused start")
			h.judge(o, h.compare("live:state"))
		default:
			if cur.readonly {
				p := h.plan(o)
				if p.read {
					h.do(o, h.w.Root())
					continue
				}
				_, code := h.w.Call(p.method, h.w.Root(), p.req)
				t.Tracef("%s -> %v (read-only)", opStr(o), code)
				if code == codes.OK {
					t.Failf("live:readonly", "%s succeeds on a read-only server", opStr(o))
				}
				h.judge(o, h.compare("live:state"))
				continue
			}
			h.do(o, h.w.Root())
		}
	}
	if d.cmd != nil {
		d.stop("term")
		for _, m := range d.onDisk() {
			t.Failf(m.aspect, "after the end: %s", m.msg)
		}
	}
	if starts >= 2 && h.okOps >= 3 {
		t.NonTrivial()
	}
}

func init() {
	eng.Register(&eng.Suite{
		Prop: "C33", Name: "server-program", Quick: 400, Deep: 9000, Retries: 8, MaxSeconds: 120,
		Rule:  "the server was started again at least twice, and at least three requests took effect",
		Scope: []string{"live", "crash", "state", "code", "membership"},
		Gen: func(r eng.R) *eng.Case {
			g := newGen(r, 1+r.Intn(3), 1+r.Intn(3))
			c := &eng.Case{Cfg: map[string]string{"backend": r.Pick(daemonBackend...)}}
			c.Ops = g.setup()
			g.weights("GRule", 8, "MAdd", 8, "MDel", 3, "GCreate", 3, "GDestroy", 3, "ECreate", 4, "EDestroy", 3, "ESecret", 6, "ELock", 3, "EUnlock", 3,
				"EUpdate", 4, "GUpdate", 4, "EUM", 5, "GUM", 5, "EKV", 5, "GKV", 5, "EKey", 5, "Cap", 6)
			for i := 2 + r.Intn(4); i > 0; i-- {
				c.Ops = append(c.Ops, g.seq(r.Intn(6))...)
				switch r.Weighted("Next", 10, "Crash", 12, "Refuse", 4, "Keys", 4) {
				case "Keys":
					c.Ops = append(c.Ops, eng.O("Keys", r.Pick("kill", "term")).WithN(int64(r.Intn(2)), int64(r.Intn(2)), int64(r.Intn(2)*r.Intn(150000)), int64([]int{0, 1, 1, 1, 2, 3}[r.Intn(6)]), int64(r.Intn(3)), int64([]int{0, 0, 1, 2, 3, 4}[r.Intn(6)])))
				case "Next":
					o := eng.O("Next", r.Pick("kill", "term"), "").WithN(int64(r.Intn(6)/5), int64(r.Intn(3)/2), 0, int64(r.Intn(4)/3), int64(r.Intn(6)/2), int64(r.Intn(3)/2*r.Intn([]int{20000, 60000}[r.Intn(2)])))
					if r.Chance(1, 3) {
						o.S[1] = eng.S(g.e() + ":" + r.Pick("boot secret", "s", "with:colon", ":", "é"))
					} else if r.Chance(1, 20) {
						o.S[1] = "nocolon"
					}
					if r.Chance(1, 3) {
						o.N[2] = int64(4 * (1 + r.Intn(2000)))
					}
					c.Ops = append(c.Ops, o)
				case "Crash":
					o := eng.O("Crash").WithN(int64(r.Intn([]int{300, 1500, 4000}[r.Intn(3)])), int64(r.Intn(5)/4))
					n := 1
					if r.Chance(1, 3) {
						n = 2 + r.Intn(3)
					}
					at := map[string]bool{}
					for j := 0; j < 60 && len(o.Sub) < n; j++ {
						if x := g.op(g.kind()); single[x.K] && (n == 1 || apart[x.K] && !at[x.Str(0)]) {
							at[x.Str(0)] = true
							o.Sub = append(o.Sub, x)
						}
					}
					if len(o.Sub) > 0 {
						c.Ops = append(c.Ops, o)
					}
				default:
					c.Ops = append(c.Ops, eng.O("Refuse", r.Pick("db", "crypto", "token", "config", "tls", "keys", "bind", "store")))
				}
			}
			return c
		},
		Run: runLive,
	})
}
