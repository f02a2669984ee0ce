// Package pipeh runs the real collector and CLI between scripted targets and
// clients, and records what the targets stream and what the clients see.
package pipeh

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	tpb "github.com/openconfig/gnmi/proto/target"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/protobuf/encoding/prototext"
	"verif/harness/tr"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

type ev = tr.Ev

// patience is how long to wait for what has to happen, which is less once
// something has failed to.
func patience() time.Duration {
	if failures.Load() > 2 {
		return 10 * time.Second
	}
	return 90 * time.Second
}

var failures atomic.Int32

// certs writes a self-signed certificate.
func certs(t *testing.T, dir string) (cert, key string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"}, DNSNames: []string{"localhost"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour), IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	kb, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		t.Fatal(err)
	}
	cert, key = filepath.Join(dir, "cert.pem"), filepath.Join(dir, "key.pem")
	write := func(p, typ string, b []byte) {
		if err := os.WriteFile(p, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	write(cert, "CERTIFICATE", der)
	write(key, "EC PRIVATE KEY", kb)
	return cert, key
}

// ---- targets ---------------------------------------------------------------

// session is a subscription of the collector to a target.
type session struct {
	stream gpb.GNMI_SubscribeServer
	req    *gpb.SubscribeRequest
	end    chan struct{}
	once   sync.Once
}

func (s *session) drop() { s.once.Do(func() { close(s.end) }) }

// host serves several targets at an address.
type host struct {
	gpb.UnimplementedGNMIServer
	addr string
	srv  *grpc.Server
	mu   sync.Mutex
	in   map[string]chan *session
}

func newHost(t *testing.T, cert, key string) *host {
	c, err := credentials.NewServerTLSFromFile(cert, key)
	if err != nil {
		t.Fatal(err)
	}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	h := &host{addr: lis.Addr().String(), srv: grpc.NewServer(grpc.Creds(c)), in: map[string]chan *session{}}
	gpb.RegisterGNMIServer(h.srv, h)
	go h.srv.Serve(lis)
	return h
}

func (h *host) target(name string) chan *session {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.in[name] == nil {
		h.in[name] = make(chan *session, 100)
	}
	return h.in[name]
}

func (h *host) Subscribe(st gpb.GNMI_SubscribeServer) error {
	req, err := st.Recv()
	if err != nil {
		return err
	}
	s := &session{stream: st, req: req, end: make(chan struct{})}
	h.target(req.GetSubscribe().GetPrefix().GetTarget()) <- s
	select {
	case <-s.end:
	case <-st.Context().Done():
	}
	return nil
}

// ---- processes -------------------------------------------------------------

// proc is a running command of the repository.
type proc struct {
	cmd  *exec.Cmd
	out  *lines
	err  *lines
	done chan struct{}
}

// lines collects output.
type lines struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lines) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() > 1<<24 {
		return len(p), nil
	}
	return l.b.Write(p)
}

func (l *lines) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func start(bin string, args ...string) (*proc, error) {
	p := &proc{cmd: exec.Command(bin, args...), out: &lines{}, err: &lines{}, done: make(chan struct{})}
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.err
	p.cmd.Dir = tr.Dir()
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.cmd.Wait()
		close(p.done)
	}()
	return p, nil
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

func (p *proc) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// wait reports whether p ended in time.
func (p *proc) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

// crash is the message of a Go program that has died of a panic or the like.
func crash(stderr string) string {
	for _, s := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(stderr, s); i >= 0 && (i == 0 || stderr[i-1] == '\n') {
			e := stderr[i:]
			for _, f := range strings.Split(e, "\n") {
				if j := strings.Index(f, "github.com/openconfig/gnmi/"); j >= 0 {
					return strings.SplitN(e, "\n", 2)[0] + " in " + strings.TrimSpace(f[j:])
				}
			}
			return strings.SplitN(e, "\n", 2)[0]
		}
	}
	return ""
}

var ports struct {
	sync.Mutex
	rnd  *rand.Rand
	used map[int]bool
}

// freePort returns a port that nobody else is given: the collector takes it
// only later, so it is none of those the system hands out.
func freePort(t *testing.T) int {
	ports.Lock()
	defer ports.Unlock()
	if ports.rnd == nil {
		ports.rnd, ports.used = rand.New(rand.NewSource(time.Now().UnixNano()^int64(os.Getpid())<<32)), map[int]bool{}
	}
	for i := 0; i < 1000; i++ {
		p := 12000 + ports.rnd.Intn(20000)
		if ports.used[p] {
			continue
		}
		if l, err := net.Listen("tcp", fmt.Sprintf(":%d", p)); err == nil {
			l.Close()
			ports.used[p] = true
			return p
		}
	}
	t.Fatal("no free port")
	return 0
}

// collector starts the real collector.
func collector(t *testing.T, dir string, c *tpb.Configuration, cert, key string, flags ...string) (*proc, string) {
	b, err := prototext.Marshal(c)
	if err != nil {
		t.Fatal(err)
	}
	cf := filepath.Join(dir, "collector.cfg")
	if err := os.WriteFile(cf, b, 0o644); err != nil {
		t.Fatal(err)
	}
	pm, _ := os.ReadFile(cert)
	blk, _ := pem.Decode(pm)
	own := blk.Bytes
	for try := 0; try < 5; try++ {
		foreign := false
		port := freePort(t)
		addr := fmt.Sprintf("127.0.0.1:%d", port)
		p, err := start(os.Getenv("VERIF_COLLECTOR"), append([]string{"-config_file", cf, "-cert_file", cert, "-key_file", key, "-port", fmt.Sprint(port), "-logtostderr"}, flags...)...)
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 600 && !p.ended(); i++ {
			if c, err := tls.Dial("tcp", addr, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}}); err == nil {
				same := len(c.ConnectionState().PeerCertificates) > 0 && bytes.Equal(own, c.ConnectionState().PeerCertificates[0].Raw)
				c.Close()
				if foreign = !same; foreign {
					break // someone else's
				}
				return p, addr
			}
			time.Sleep(50 * time.Millisecond)
		}
		if !p.ended() {
			p.kill()
		}
		if !foreign && !strings.Contains(p.err.String(), "address already in use") {
			t.Fatalf("the collector does not serve: %s", tail(p.err.String()))
		}
	}
	t.Fatal("no port for the collector")
	return nil, ""
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}
