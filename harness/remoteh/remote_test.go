package remoteh

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/cli"
	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/subscribe"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"verif/harness/fakes"
	"verif/harness/tr"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

// wal names the case that runs, in case that it ends the process.
func wal(s string) { os.WriteFile(filepath.Join(tr.Dir(), "wal.txt"), []byte(s), 0o644) }

func where() string {
	ls := strings.Split(string(debug.Stack()), "\n")
	for i, s := range ls {
		if strings.HasPrefix(s, "github.com/openconfig/gnmi/") && i+1 < len(ls) {
			f := strings.TrimSpace(ls[i+1])
			if j := strings.Index(f, " +0x"); j > 0 {
				f = f[:j]
			}
			return filepath.Base(f)
		}
	}
	return "?"
}

// guard runs f and reports its panic.
func guard(f func()) (pan tr.Ev) {
	defer func() {
		if x := recover(); x != nil {
			pan = tr.Ev{"e": "panic", "msg": fmt.Sprintf("%s: %v", where(), x)}
		}
	}()
	f()
	return nil
}

func digest(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return "err " + err.Error()
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%x", h.Sum64())
}

// ---- the cache -------------------------------------------------------------

// state is what is stored, by the JSON of the leaf's path; the path of a leaf
// of another target than t is marked.
type state map[string]string

func key(p []string) string {
	if p == nil {
		p = []string{}
	}
	b, _ := json.Marshal(p)
	return string(b)
}

func stored(c *cache.Cache, targets []string, t string) state {
	s := state{}
	for _, x := range targets {
		c.Query(x, []string{}, func(p []string, _ *ctree.Leaf, v any) error {
			d := fmt.Sprintf("%T", v)
			if n, ok := v.(*gpb.Notification); ok {
				d = digest(n)
			}
			if x != t {
				p = append([]string{"!other", x}, p...)
			}
			s[key(p)] = d
			return nil
		})
	}
	return s
}

func rawKeys(ks []string) []json.RawMessage {
	r := []json.RawMessage{}
	for _, k := range ks {
		r = append(r, json.RawMessage(k))
	}
	return r
}

func (s state) diff(o state) []json.RawMessage {
	var ks []string
	for k, v := range s {
		if w, ok := o[k]; !ok || v != w {
			ks = append(ks, k)
		}
	}
	for k := range o {
		if _, ok := s[k]; !ok {
			ks = append(ks, k)
		}
	}
	return rawKeys(ks)
}

func (s state) paths() []json.RawMessage {
	var ks []string
	for k := range s {
		ks = append(ks, k)
	}
	return rawKeys(ks)
}

type world struct {
	c       *cache.Cache
	targets []string
	evs     []tr.Ev
}

func newWorld(r *rand.Rand) *world {
	w := &world{targets: []string{"t", "u"}}
	var o []cache.Option
	if r.Intn(3) == 0 {
		o = append(o, cache.DisableEventDrivenEmulation())
	}
	if r.Intn(4) == 0 {
		o = append(o, cache.WithFutureThreshold(time.Second))
	}
	if r.Intn(4) == 0 {
		l, err := cache.WithLatencyWindows([]string{"1s", "2s"}, time.Second)
		if err != nil {
			panic(err)
		}
		o = append(o, l)
	}
	w.c = cache.New(w.targets, o...)
	return w
}

// ingest reports whether the cache survived.
func (w *world) ingest(n *gpb.Notification) bool {
	t := n.GetPrefix().GetTarget()
	e := tr.Ev{"e": "noti", "at": "cache", "n": notiEv(n), "refused": n.GetPrefix() == nil || (t != "t" && t != "u")}
	pre := stored(w.c, w.targets, t)
	var err error
	if p := guard(func() { err = w.c.GnmiUpdate(n) }); p != nil {
		w.evs = append(w.evs, p)
		return false
	}
	post := stored(w.c, w.targets, t)
	e["err"], e["diff"], e["post"] = err != nil, pre.diff(post), post.paths()
	w.evs = append(w.evs, e)
	return true
}

// between is what the collector does between messages.
func (w *world) between(r *rand.Rand) bool {
	p := guard(func() {
		t := pick(r, w.targets...)
		switch r.Intn(14) {
		case 0:
			w.c.UpdateMetadata()
		case 1:
			w.c.UpdateSize()
		case 2:
			w.c.Sync(t)
		case 3:
			w.c.Connect(t)
		case 4:
			w.c.ConnectError(t, errors.New("x"))
		case 5:
			w.c.Reset(t)
		}
	})
	if p != nil {
		w.evs = append(w.evs, p)
	}
	return p == nil
}

// ---- histories of the model ------------------------------------------------

type hmsg struct {
	Op, Kind  string
	Pre, Path []string
	Ts        int64
}

func elems(r *rand.Rand, p []string) *gpb.Path {
	q := &gpb.Path{}
	k := r.Intn(5)
	for i := 0; i < len(p); i++ {
		switch {
		case k == 0: // deprecated
			q.Element = append(q.Element, p[i])
		case k == 1 && i+1 < len(p): // the next one is a key
			q.Elem = append(q.Elem, &gpb.PathElem{Name: p[i], Key: map[string]string{"k": p[i+1]}})
			i++
		default:
			q.Elem = append(q.Elem, &gpb.PathElem{Name: p[i]})
		}
	}
	return q
}

func isNil(p []string) bool { return len(p) == 1 && p[0] == "nil" }

func kindVal(r *rand.Rand, k string) *gpb.TypedValue {
	switch k {
	case "bool":
		return &gpb.TypedValue{Value: &gpb.TypedValue_BoolVal{BoolVal: r.Intn(2) == 0}}
	case "double":
		return &gpb.TypedValue{Value: &gpb.TypedValue_DoubleVal{DoubleVal: float64(r.Intn(2))}}
	case "int":
		return &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: int64(r.Intn(2))}}
	}
	return pick(r, nil, &gpb.TypedValue{})
}

func (m hmsg) noti(r *rand.Rand, target string) *gpb.Notification {
	n := &gpb.Notification{Timestamp: m.Ts, Prefix: elems(r, m.Pre), Atomic: m.Op == "atomic"}
	n.Prefix.Target = target
	if target == "" && len(m.Pre) == 0 && r.Intn(2) == 0 {
		n.Prefix = nil
	}
	if m.Op == "delete" {
		p := &gpb.Path{}
		if !isNil(m.Path) {
			p = elems(r, m.Path)
		}
		n.Delete = []*gpb.Path{p}
		return n
	}
	u := &gpb.Update{Val: kindVal(r, m.Kind)}
	if m.Op == "atomic" {
		u.Path = pick(r, nil, elems(r, []string{"x"}))
	} else if !isNil(m.Path) {
		u.Path = elems(r, m.Path)
	}
	n.Update = []*gpb.Update{u}
	return n
}

func histories(t *testing.T, f func(i int, h []hmsg)) {
	fh, err := os.Open(os.Getenv("VERIF_HIST"))
	if err != nil {
		t.Fatal(err)
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(nil, 1<<20)
	for i := 0; sc.Scan(); i++ {
		var h []hmsg
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			t.Fatal(err)
		}
		f(i, h)
	}
}

// TestModel replays the model's histories on the cache and as a stream to the
// client library and the CLI.
func TestModel(t *testing.T) {
	srv := newServer(t)
	w := tr.New("model", 8)
	step := tr.N(6, 1)
	var evs []tr.Ev
	msgs, cases := 0, 0
	flush := func(i int) {
		w.Case(fmt.Sprintf("model %d", i), evs)
		evs = nil
	}
	histories(t, func(i int, h []hmsg) {
		if i%step != int(tr.Seed())%step {
			return
		}
		cases++
		r := rand.New(rand.NewSource(int64(i)))
		x := newWorld(r)
		for _, m := range h {
			n := wire(r, m.noti(r, "t"), func() *gpb.Notification { return &gpb.Notification{} }, false)
			msgs++
			if !x.ingest(n) {
				break
			}
		}
		evs = append(evs, x.evs...)
		if cases%4 == 0 {
			var sc []*gpb.SubscribeResponse
			for _, m := range h {
				sc = append(sc, &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: m.noti(r, pick(r, "", "t"))}})
			}
			wal(fmt.Sprint("model ", i, " ", sc))
			if cases%8 == 0 {
				evs = append(evs, srv.library(r, sc)...)
			} else {
				evs = append(evs, srv.display(r, sc)...)
			}
		}
		if len(evs) > 200 {
			flush(i)
		}
	})
	flush(-1)
	w.Close()
	srv.stop()
	tr.Stats("model", tr.Ev{"histories": cases, "messages": msgs})
}

// TestCache feeds arbitrary notifications into caches.
func TestCache(t *testing.T) {
	w := tr.New("cache", 8)
	n := tr.N(2500, 40000)
	msgs := 0
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(tr.Seed()*1000003 + int64(i)))
		x := newWorld(r)
		for k := 3 + r.Intn(14); k > 0; k-- {
			if !x.between(r) {
				break
			}
			msgs++
			if !x.ingest(wireN(r, notification(r))) {
				break
			}
		}
		w.Case(fmt.Sprintf("cache %d", i), x.evs)
	}
	w.Close()
	tr.Stats("cache", tr.Ev{"cases": n, "messages": msgs})
}

// ---- the Subscribe handler -------------------------------------------------

type acl struct{ deny, fail bool }

func (a acl) NewRPCACL(context.Context) (subscribe.RPCACL, error) {
	if a.fail {
		return nil, errors.New("no")
	}
	return rpcACL(a), nil
}

func (a acl) Check(string, string) bool { return false }

type rpcACL acl

func (a rpcACL) Check(t string) bool { return !a.deny || t == "t" }

// rpc runs one Subscribe of a remote client.
func rpc(r *rand.Rand, x *world, s *subscribe.Server) (evs []tr.Ev, ok bool) {
	t := "t"
	st := fakes.NewSubServer(context.Background(), func(m *gpb.SubscribeResponse) error {
		if _, err := proto.Marshal(m); err != nil {
			return err
		}
		return nil
	})
	if r.Intn(8) == 0 {
		k := r.Intn(4)
		st.OnSend = func(*gpb.SubscribeResponse) error {
			if k--; k < 0 {
				return fakes.ErrSend
			}
			return nil
		}
	}
	done := make(chan struct{})
	var err error
	var pan tr.Ev
	go func() {
		defer close(done)
		pan = guard(func() { err = s.Subscribe(st) })
	}()
	over := func() bool {
		synctest.Wait()
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
	for k := r.Intn(5); k >= 0 && !over(); k-- {
		if r.Intn(4) > 0 {
			st.Request(wireReq(r, request(r)))
		} else {
			for n := r.Intn(4); n > 0; n-- {
				if !x.ingest(wireN(r, notification(r))) {
					return nil, false
				}
			}
			if !x.between(r) {
				return nil, false
			}
		}
	}
	over()
	pre := stored(x.c, x.targets, t)
	st.CloseSend()
	if !over() {
		st.Stop()
	}
	for k := 0; k < 10 && !over(); k++ {
		time.Sleep(time.Minute)
	}
	e := tr.Ev{"e": "sub", "diff": pre.diff(stored(x.c, x.targets, t))}
	switch {
	case pan != nil:
		return []tr.Ev{pan}, true
	case !over():
		return []tr.Ev{{"e": "stuck", "msg": "Subscribe does not return"}}, false
	case err == nil:
		e["r"] = "ok"
	default:
		e["r"] = status.Code(err).String()
	}
	return []tr.Ev{e}, true
}

// TestSubscribe sends arbitrary requests to the Subscribe handler.
func TestSubscribe(t *testing.T) {
	w := tr.New("subscribe", 4)
	n := tr.N(1500, 20000)
	codesSeen := map[string]int{}
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(tr.Seed()*7000003 + int64(i)))
		wal(fmt.Sprint("subscribe ", i))
		synctest.Test(t, func(t *testing.T) {
			x := newWorld(r)
			var o []subscribe.Option
			if r.Intn(3) == 0 {
				o = append(o, subscribe.WithStats())
			}
			if r.Intn(3) == 0 {
				o = append(o, subscribe.WithACL(acl{r.Intn(2) == 0, r.Intn(6) == 0}))
			}
			if r.Intn(4) == 0 {
				o = append(o, subscribe.WithoutDupReport())
			}
			s, err := subscribe.NewServer(x.c, o...)
			if err != nil {
				panic(err)
			}
			x.c.SetClient(s.Update)
			for k := r.Intn(8); k > 0; k-- {
				if !x.ingest(wireN(r, notification(r))) {
					break
				}
			}
			for k := 1 + r.Intn(3); k > 0; k-- {
				evs, ok := rpc(r, x, s)
				x.evs = append(x.evs, evs...)
				for _, e := range evs {
					if c, is := e["r"].(string); is {
						codesSeen[c]++
					}
				}
				if !ok {
					break
				}
			}
			w.Case(fmt.Sprintf("subscribe %d", i), x.evs)
		})
	}
	w.Close()
	tr.Stats("subscribe", tr.Ev{"cases": n, "codes": codesSeen})
}

// ---- the client library and the CLI ----------------------------------------

// server is a remote target that sends what it was told to.
type server struct {
	gpb.UnimplementedGNMIServer
	g    *grpc.Server
	addr string
	mu   sync.Mutex
	n    int
	sc   map[string]*script
}

type script struct {
	msgs []*gpb.SubscribeResponse
	poll [][]*gpb.SubscribeResponse
	fail bool
}

func newServer(t *testing.T) *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := &server{g: grpc.NewServer(), addr: l.Addr().String(), sc: map[string]*script{}}
	gpb.RegisterGNMIServer(s.g, s)
	go s.g.Serve(l)
	return s
}

func (s *server) stop() { s.g.Stop() }

func (s *server) add(sc *script) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	id := fmt.Sprintf("case%d", s.n)
	s.sc[id] = sc
	return id
}

func (s *server) Subscribe(st gpb.GNMI_SubscribeServer) error {
	q, err := st.Recv()
	if err != nil {
		return err
	}
	s.mu.Lock()
	sc := s.sc[q.GetSubscribe().GetPrefix().GetTarget()]
	s.mu.Unlock()
	if sc == nil {
		return status.Error(codes.NotFound, "no such case")
	}
	for i := -1; ; i++ {
		ms := sc.msgs
		if i >= 0 {
			if _, err := st.Recv(); err != nil || i == len(sc.poll) {
				break
			}
			ms = sc.poll[i]
		}
		synced := false
		for _, m := range ms {
			if err := st.Send(m); err != nil {
				return err
			}
			synced = synced || m.GetSyncResponse()
		}
		if !synced || q.GetSubscribe().GetMode() != gpb.SubscriptionList_POLL {
			break
		}
	}
	if sc.fail {
		return status.Error(codes.Internal, "failed")
	}
	return nil
}

var syncMsg = &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}}

// tap is a client implementation that watches the client's tree.
type tap struct {
	client.Impl
	msgs []*gpb.SubscribeResponse
	k    int
	c    *client.CacheClient
	evs  []tr.Ev
}

func (p *tap) leaves() state {
	s := state{}
	for _, l := range p.c.Leaves() {
		s[key(l.Path)] = fmt.Sprintf("%d %T %v", l.TS.UnixNano(), l.Val, l.Val)
	}
	return s
}

func (p *tap) Recv() error {
	pre := p.leaves()
	var err error
	pan := guard(func() { err = p.Impl.Recv() })
	if pan != nil {
		p.evs = append(p.evs, pan)
		return errors.New("panic")
	}
	post := p.leaves()
	if p.k < len(p.msgs) {
		m := p.msgs[p.k]
		p.k++
		e := tr.Ev{"e": "other", "at": "client", "diff": pre.diff(post)}
		if n := m.GetUpdate(); n != nil {
			e["e"], e["n"], e["err"], e["refused"], e["post"] = "noti", notiEv(n), err != nil, false, post.paths()
		}
		p.evs = append(p.evs, e)
	}
	return err
}

var current *tap

func init() {
	client.Register("tap", func(ctx context.Context, d client.Destination) (client.Impl, error) {
		if current == nil {
			return nil, errors.New("not in use") // the CLI tries all kinds of clients
		}
		i, err := gclient.New(ctx, d)
		if err != nil {
			return nil, err
		}
		current.Impl = i
		return current, nil
	})
}

func (s *server) query(r *rand.Rand, id string, typ client.Type) client.Query {
	return client.Query{Addrs: []string{s.addr}, Target: id, Queries: []client.Path{pick(r, client.Path{"*"}, client.Path{"a"}, client.Path{"a", "b[k=v]"})},
		Type: typ, Timeout: 10 * time.Second, UpdatesOnly: r.Intn(5) == 0}
}

// bounded runs f, which must return.
func bounded(f func()) (e tr.Ev) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		e = guard(f)
	}()
	select {
	case <-done:
		return e
	case <-time.After(40 * time.Second):
		return tr.Ev{"e": "stuck", "msg": "does not return"}
	}
}

// library shows the messages to the caching client of the library.
func (s *server) library(r *rand.Rand, ms []*gpb.SubscribeResponse) []tr.Ev {
	typ := pick(r, client.Stream, client.Stream, client.Once, client.Poll)
	sc := &script{fail: r.Intn(3) == 0}
	var seen []*gpb.SubscribeResponse
	if typ == client.Poll {
		k := r.Intn(len(ms) + 1)
		sc.msgs = append(append([]*gpb.SubscribeResponse{}, ms[:k]...), syncMsg)
		sc.poll = [][]*gpb.SubscribeResponse{append(append([]*gpb.SubscribeResponse{}, ms[k:]...), syncMsg)}
		seen = append(append([]*gpb.SubscribeResponse{}, sc.msgs...), sc.poll[0]...)
	} else {
		sc.msgs = append(append([]*gpb.SubscribeResponse{}, ms...), syncMsg)
		seen = sc.msgs
	}
	id := s.add(sc)
	c := client.New()
	current = &tap{c: c, msgs: seen}
	q := s.query(r, id, typ)
	if r.Intn(2) == 0 {
		q.NotificationHandler = func(client.Notification) error {
			if r.Intn(5) == 0 {
				return errors.New("no")
			}
			return nil
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	pan := bounded(func() {
		err := c.Subscribe(ctx, q, "tap")
		if err == nil && typ == client.Poll && sc.msgs != nil && current.k == len(sc.msgs) {
			c.Poll()
		}
		c.Close()
	})
	evs := current.evs
	current = nil
	if pan != nil {
		evs = append(evs, pan)
	}
	return evs
}

// display has the CLI show the messages.
func (s *server) display(r *rand.Rand, ms []*gpb.SubscribeResponse) []tr.Ev {
	typ := pick(r, client.Stream, client.Stream, client.Once, client.Once, client.Poll)
	sc := &script{fail: r.Intn(3) == 0}
	k := r.Intn(len(ms) + 1)
	if typ == client.Once {
		k = len(ms)
	}
	sc.msgs = append(append([]*gpb.SubscribeResponse{}, ms[:k]...), syncMsg)
	if typ == client.Poll {
		sc.poll = [][]*gpb.SubscribeResponse{append(append([]*gpb.SubscribeResponse{}, ms[k:]...), syncMsg), {syncMsg}}
	} else {
		sc.msgs = append(sc.msgs, ms[k:]...)
	}
	q := s.query(r, s.add(sc), typ)
	cfg := &cli.Config{Display: func([]byte) {}, Delimiter: pick(r, "/", "."), DisplayIndent: "  ", DisplayPrefix: pick(r, "", "> "),
		DisplayType: pick(r, "group", "group", "group", "single", "proto", "shortproto"), Timestamp: pick(r, "", "", "on", "raw", "2006"),
		DisplaySize: r.Intn(3) == 0, Latency: r.Intn(3) == 0, DisplayPeer: r.Intn(3) == 0, ClientTypes: []string{gclient.Type},
		FilterDeletes: r.Intn(5) == 0, FilterUpdates: r.Intn(5) == 0, Count: uint(1 + r.Intn(3))}
	if typ == client.Poll {
		cfg.DisplayType = pick(r, "group", "single") // the others show a single stream
	}
	if typ == client.Stream {
		cfg.Count = uint(r.Intn(3))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	var err error
	if e := bounded(func() { err = cli.QueryDisplay(ctx, q, cfg) }); e != nil {
		return []tr.Ev{e}
	}
	return []tr.Ev{{"e": "show", "r": map[bool]string{true: "ok", false: "err"}[err == nil]}}
}

// TestClient sends arbitrary responses to the client library and the CLI.
func TestClient(t *testing.T) {
	srv := newServer(t)
	w := tr.New("client", 4)
	n := tr.N(2500, 25000)
	msgs := 0
	var evs []tr.Ev
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(tr.Seed()*9000011 + int64(i)))
		var ms []*gpb.SubscribeResponse
		for k := 1 + r.Intn(6); k > 0; k-- {
			ms = append(ms, wireResp(r, response(r)))
			msgs++
		}
		wal(fmt.Sprint("client ", i, " ", ms))
		if i%3 == 0 {
			evs = srv.display(r, ms)
		} else {
			evs = srv.library(r, ms)
		}
		w.Case(fmt.Sprintf("client %d", i), evs)
	}
	w.Close()
	srv.stop()
	tr.Stats("client", tr.Ev{"streams": n, "messages": msgs})
}
