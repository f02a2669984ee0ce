// Package managerh records what the target manager does.
package managerh

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openconfig/gnmi/connection"
	"github.com/openconfig/gnmi/manager"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"verif/harness/sched"
	"verif/harness/tr"
	"verif/harness/vsync"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
)

// item is one thing a stream does: upd, sync, bad (error response), nil
// (empty response), err, eof, hang.
type item struct {
	kind  string
	delay time.Duration
}

// attempt scripts one attempt to subscribe.
type attempt struct {
	dial, open, send string // ok, fail, hang
	delay            time.Duration
	items            []item
}

type world struct {
	mu     sync.Mutex
	evs    []tr.Ev
	t0     time.Time
	m      *manager.Manager
	calls  int
	msgs   int
	cm     *connection.Manager
	script func(n string) attempt
	cur    map[string]attempt
	ends   []func()
	// yields inside callbacks
	slow func() int
	quit bool
}

var errScripted = errors.New("scripted")

const maxEvents = 6000

func (w *world) at() int64 { return time.Since(w.t0).Milliseconds() }

func (w *world) add(e tr.Ev) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.quit {
		e["at"] = w.at()
		w.evs = append(w.evs, e)
	}
}

func (w *world) cb(n, k string, id int64) {
	// recorded late, so that a callback nobody waits for shows
	for i := 0; i < w.slow(); i++ {
		vsync.Yield("callback", nil)
	}
	w.add(tr.Ev{"e": k, "n": n, "id": id})
	if w.slow() > 0 {
		vsync.Yield("callback", nil)
	}
}

func newWorld(shared bool) *world {
	w := &world{t0: time.Now(), cur: map[string]attempt{}, slow: func() int { return 0 }}
	cfg := manager.Config{
		Connect:           func(n string) { w.cb(n, "connect", 0) },
		Reset:             func(n string) { w.cb(n, "rst", 0) },
		Sync:              func(n string) { w.cb(n, "sync", 0) },
		Update:            func(n string, u *gpb.Notification) { w.cb(n, "upd", u.GetTimestamp()) },
		ConnectError:      func(n string, err error) { w.cb(n, "connerr", 0) },
		MonitorError:      func(n string, err error) { w.cb(n, "monerr", 0) },
		Timeout:           20 * time.Second,
		ReceiveTimeout:    90 * time.Second,
		ConnectionManager: w,
	}
	m, err := manager.NewManager(cfg)
	if err != nil {
		panic(err)
	}
	w.m = m
	if shared {
		d := func(ctx context.Context, addr string, _ ...grpc.DialOption) (*grpc.ClientConn, error) { return w.dial(ctx, ctxTarget(ctx)) }
		cm, err := connection.NewManagerCustom(map[string]connection.Dial{connection.DEFAULT: d})
		if err != nil {
			panic(err)
		}
		w.cm = cm
	}
	return w
}

func ctxTarget(ctx context.Context) string {
	md, _ := metadata.FromOutgoingContext(ctx)
	if v := md.Get(manager.Target); len(v) == 1 {
		return v[0]
	}
	return "?"
}

// pause waits d or until ctx ends; the goroutine also passes a schedule point.
func pause(ctx context.Context, d time.Duration) error {
	vsync.Yield("peer", nil)
	if d > 0 {
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-ctx.Done():
		case <-t.C:
		}
		vsync.Yield("peer", nil)
	}
	return ctx.Err()
}

func hang(ctx context.Context) error {
	<-ctx.Done()
	vsync.Yield("peer", nil)
	return ctx.Err()
}

func (w *world) dial(ctx context.Context, n string) (*grpc.ClientConn, error) {
	w.mu.Lock()
	a := w.cur[n]
	w.mu.Unlock()
	if err := pause(ctx, a.delay); err != nil {
		return nil, err
	}
	switch a.dial {
	case "fail":
		return nil, errScripted
	case "hang":
		return nil, hang(ctx)
	}
	c, err := grpc.NewClient("passthrough:///x", grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithStreamInterceptor(func(ctx context.Context, _ *grpc.StreamDesc, _ *grpc.ClientConn, _ string, _ grpc.Streamer, _ ...grpc.CallOption) (grpc.ClientStream, error) {
			return w.open(ctx)
		}))
	if err != nil {
		panic(err)
	}
	w.mu.Lock()
	w.ends = append(w.ends, func() { c.Close() })
	w.mu.Unlock()
	return c, nil
}

// Connection implements manager.ConnectionManager.
func (w *world) Connection(ctx context.Context, addr, dialer string) (*grpc.ClientConn, func(), error) {
	n := ctxTarget(ctx)
	w.add(tr.Ev{"e": "try", "n": n})
	a := w.script(n)
	w.mu.Lock()
	w.cur[n] = a
	w.mu.Unlock()
	var c *grpc.ClientConn
	var err error
	done := func() {}
	if w.cm != nil {
		c, done, err = w.cm.Connection(ctx, addr, dialer)
	} else {
		c, err = w.dial(ctx, n)
		if err == nil {
			done = func() { c.Close() }
		}
	}
	w.add(tr.Ev{"e": "tryend", "n": n, "ok": err == nil})
	return c, done, err
}

type stream struct {
	grpc.ClientStream
	w   *world
	ctx context.Context
	n   string
	a   attempt
	k   int
}

func (w *world) open(ctx context.Context) (grpc.ClientStream, error) {
	n := ctxTarget(ctx)
	w.mu.Lock()
	a := w.cur[n]
	w.mu.Unlock()
	err := pause(ctx, 0)
	if err == nil && a.open == "hang" {
		err = hang(ctx)
	}
	if err == nil && a.open == "fail" {
		err = errScripted
	}
	w.add(tr.Ev{"e": "open", "n": n, "ok": err == nil})
	if err != nil {
		return nil, err
	}
	return &stream{w: w, ctx: ctx, n: n, a: a}, nil
}

func (s *stream) Context() context.Context     { return s.ctx }
func (s *stream) CloseSend() error             { return nil }
func (s *stream) Header() (metadata.MD, error) { return nil, nil }
func (s *stream) Trailer() metadata.MD         { return nil }

func (s *stream) SendMsg(m any) error {
	if s.a.send == "fail" {
		s.w.add(tr.Ev{"e": "sendfail", "n": s.n})
		return io.EOF
	}
	return nil
}

func (s *stream) RecvMsg(m any) error {
	s.w.add(tr.Ev{"e": "wait", "n": s.n})
	it := item{kind: "hang"}
	if s.k < len(s.a.items) {
		it = s.a.items[s.k]
	}
	s.k++
	err := pause(s.ctx, it.delay)
	over := func(k string, err error) error {
		s.w.add(tr.Ev{"e": "over", "n": s.n, "k": k})
		return err
	}
	if err != nil {
		return over("ctx", err)
	}
	resp := m.(*gpb.SubscribeResponse)
	var id int64
	switch it.kind {
	case "hang":
		return over("ctx", hang(s.ctx))
	case "err":
		return over("err", errScripted)
	case "eof":
		return over("eof", io.EOF)
	case "upd":
		s.w.mu.Lock()
		s.w.msgs++
		id = int64(s.w.msgs)
		s.w.mu.Unlock()
		resp.Response = &gpb.SubscribeResponse_Update{Update: &gpb.Notification{Timestamp: id}}
	case "sync":
		resp.Response = &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}
	case "bad":
		resp.Response = &gpb.SubscribeResponse_Error{Error: &gpb.Error{Message: "x"}}
	case "nil":
	}
	s.w.add(tr.Ev{"e": "recv", "n": s.n, "k": it.kind, "id": id})
	return nil
}

// call performs an operation of the user.
func (w *world) call(op, n string, t *tpb.Target, T time.Duration, valid bool, sr *gpb.SubscribeRequest) {
	defer func() {
		if x := recover(); x != nil {
			w.add(tr.Ev{"e": "panic", "msg": fmt.Sprint(x)})
		}
	}()
	w.mu.Lock()
	w.calls++
	c := w.calls
	w.mu.Unlock()
	w.add(tr.Ev{"e": "call", "c": c, "op": op, "n": n, "T": T.Milliseconds(), "valid": valid})
	var err error
	switch op {
	case "add":
		err = w.m.Add(n, t, sr)
	case "rm":
		err = w.m.Remove(n)
	case "rec":
		err = w.m.Reconnect(n)
	}
	res := "ok"
	if err != nil {
		res = "err"
	}
	w.add(tr.Ev{"e": "ret", "c": c, "res": res})
}

func sub() *gpb.SubscribeRequest {
	return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{}}}
}

// add adds a target; meta is its receive_timeout setting.
func (w *world) addTarget(n, meta, addr string) {
	t := &tpb.Target{}
	if addr != "" {
		t.Addresses = []string{addr}
	}
	T := 90 * time.Second
	if meta != "" {
		t.Meta = map[string]string{"receive_timeout": meta}
		if d, err := time.ParseDuration(meta); err == nil {
			T = d
		}
	}
	w.call("add", n, t, T, addr != "" && n != "", sub())
}

func (w *world) cfg() tr.Ev {
	b := float64(manager.RetryBaseDelay.Milliseconds())
	m := float64(manager.RetryMaxDelay.Milliseconds())
	r := manager.RetryRandomization
	return tr.Ev{"lo": int(b * (1 - r)), "hi": int(m * (1 + r)), "grown": int(b * 3 / 2)}
}

func (w *world) finish() []tr.Ev {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, f := range w.ends {
		f()
	}
	w.quit = true
	return w.evs
}

// ---- replay of the model's histories -------------------------------------

func replay(h []string) ([]tr.Ev, tr.Ev) {
	w := newWorld(false)
	step := make(chan string, 1)
	// every stage takes its outcome from the history
	w.script = func(string) attempt { return attempt{} }
	g := &gated{world: w, step: step}
	m, err := manager.NewManager(manager.Config{
		Connect:           func(n string) { w.cb(n, "connect", 0) },
		Reset:             func(n string) { w.cb(n, "rst", 0) },
		Sync:              func(n string) { w.cb(n, "sync", 0) },
		Update:            func(n string, u *gpb.Notification) { w.cb(n, "upd", u.GetTimestamp()) },
		ConnectError:      func(n string, err error) { w.cb(n, "connerr", 0) },
		MonitorError:      func(n string, err error) { w.cb(n, "monerr", 0) },
		ConnectionManager: g,
	})
	if err != nil {
		panic(err)
	}
	w.m = m
	var left sync.WaitGroup
	removing := false
	for _, x := range h {
		switch x {
		case "add":
			t := &tpb.Target{Addresses: []string{"x"}}
			w.call("add", "t", t, 0, true, sub())
			removing = false
		case "timer":
			for i := 0; i < 100 && !g.trying(); i++ {
				time.Sleep(time.Second)
				synctest.Wait()
			}
		case "rec":
			w.call("rec", "t", nil, 0, true, nil)
		case "rm":
			removing = true
			left.Add(1)
			go func() { defer left.Done(); w.call("rm", "t", nil, 0, true, nil) }()
		default:
			select {
			case step <- x:
			default:
			}
		}
		synctest.Wait()
		select {
		case <-step:
		default:
		}
		w.add(tr.Ev{"e": "tick"})
	}
	if !removing {
		left.Add(1)
		go func() { defer left.Done(); w.call("rm", "t", nil, 0, true, nil) }()
	}
	gone := make(chan bool)
	go func() { left.Wait(); close(gone) }()
	select {
	case <-gone:
	case <-time.After(10 * time.Minute):
		w.add(tr.Ev{"e": "stuck"})
	}
	time.Sleep(5 * time.Minute)
	w.add(tr.Ev{"e": "end"})
	return w.finish(), w.cfg()
}

// gated takes each outcome from a channel.
type gated struct {
	*world
	step chan string
	mu2  sync.Mutex
	try  bool
}

func (g *gated) trying() bool { g.mu2.Lock(); defer g.mu2.Unlock(); return g.try }
func (g *gated) set(b bool)   { g.mu2.Lock(); g.try = b; g.mu2.Unlock() }
func (g *gated) next(ctx context.Context) (string, error) {
	select {
	case x := <-g.step:
		return x, nil
	case <-ctx.Done():
		return "", ctx.Err()
	}
}

func (g *gated) Connection(ctx context.Context, addr, dialer string) (*grpc.ClientConn, func(), error) {
	g.add(tr.Ev{"e": "try", "n": "t"})
	g.set(true)
	x, err := g.next(ctx)
	if err == nil && x != "dialok" {
		err = errScripted
	}
	g.add(tr.Ev{"e": "tryend", "n": "t", "ok": err == nil})
	if err != nil {
		g.set(false)
		return nil, func() {}, err
	}
	c, err := grpc.NewClient("passthrough:///x", grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithStreamInterceptor(func(ctx context.Context, _ *grpc.StreamDesc, _ *grpc.ClientConn, _ string, _ grpc.Streamer, _ ...grpc.CallOption) (grpc.ClientStream, error) {
			x, err := g.next(ctx)
			if err == nil && x != "open" {
				err = errScripted
			}
			g.add(tr.Ev{"e": "open", "n": "t", "ok": err == nil})
			return &gstream{ctx: ctx, g: g}, err
		}))
	if err != nil {
		panic(err)
	}
	return c, func() { g.set(false); c.Close() }, nil
}

type gstream struct {
	grpc.ClientStream
	ctx context.Context
	g   *gated
}

func (s *gstream) Context() context.Context { return s.ctx }
func (s *gstream) CloseSend() error         { return nil }
func (s *gstream) SendMsg(any) error        { return nil }
func (s *gstream) RecvMsg(m any) error {
	s.g.add(tr.Ev{"e": "wait", "n": "t"})
	x, err := s.g.next(s.ctx)
	if err != nil || x == "err" {
		k := "ctx"
		if err == nil {
			k, err = "err", errScripted
		}
		s.g.add(tr.Ev{"e": "over", "n": "t", "k": k})
		return err
	}
	resp := m.(*gpb.SubscribeResponse)
	var id int64
	if x == "sync" {
		resp.Response = &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}
	} else {
		s.g.mu.Lock()
		s.g.msgs++
		id = int64(s.g.msgs)
		s.g.mu.Unlock()
		resp.Response = &gpb.SubscribeResponse_Update{Update: &gpb.Notification{Timestamp: id}}
	}
	s.g.add(tr.Ev{"e": "recv", "n": "t", "k": x, "id": id})
	return nil
}

// TestReplay steps TLC's histories.
func TestReplay(t *testing.T) {
	f, err := os.Open(os.Getenv("VERIF_HIST"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var all [][]string
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var h []string
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			t.Fatal(err)
		}
		all = append(all, h)
	}
	w := tr.New("replay", 6)
	defer w.Close()
	for i, h := range all {
		synctest.Test(t, func(t *testing.T) {
			evs, cfg := replay(h)
			w.CaseCfg(fmt.Sprint("history ", i), cfg, evs)
		})
	}
	tr.Stats("replay", map[string]any{"cases": w.Cases, "events": w.Events})
}

// ---- controlled schedules -------------------------------------------------

type step struct {
	op   string // add, rm, rec, sleep
	n    string
	meta string
	addr string
	d    time.Duration
}

type program struct {
	steps  [][]step
	script map[string][]attempt
	shared bool
	slow   int
	tail   time.Duration
}

func randItems(r *rand.Rand) []item {
	var out []item
	for k := r.Intn(5); k > 0; k-- {
		it := item{kind: []string{"upd", "upd", "upd", "sync", "bad", "nil"}[r.Intn(6)]}
		switch r.Intn(6) {
		case 0:
			it.delay = time.Duration(r.Intn(20)) * time.Second
		case 1:
			it.delay = time.Duration(1+r.Intn(100)) * time.Millisecond
		case 2:
			if r.Intn(4) == 0 {
				it.delay = 95 * time.Second
			}
		case 3:
			if r.Intn(3) == 0 {
				it.delay = 10 * time.Second // some targets' receive timeout
			}
		}
		out = append(out, it)
	}
	end := item{kind: []string{"err", "err", "eof", "hang"}[r.Intn(4)]}
	if r.Intn(4) == 0 {
		end.delay = time.Duration(r.Intn(8)) * time.Second
	}
	return append(out, end)
}

func randAttempt(r *rand.Rand) attempt {
	a := attempt{dial: "ok", open: "ok", send: "ok"}
	switch r.Intn(10) {
	case 0, 1:
		a.dial = "fail"
	case 2:
		a.open = "fail"
	case 3:
		a.send = []string{"ok", "fail"}[r.Intn(2)]
	case 4:
		if r.Intn(2) == 0 {
			a.dial = "hang"
		} else {
			a.open = "hang"
		}
	}
	if r.Intn(4) == 0 {
		a.delay = time.Duration(r.Intn(3000)) * time.Millisecond
	}
	a.items = randItems(r)
	return a
}

func randProgram(r *rand.Rand) program {
	p := program{script: map[string][]attempt{}, shared: r.Intn(3) == 0, slow: r.Intn(3), tail: time.Duration(r.Intn(2)) * 200 * time.Second}
	names := []string{"t", "u", "v"}[:1+r.Intn(3)]
	addrs := []string{"x", "x", "y;z"}
	for _, n := range names {
		for k := 2 + r.Intn(5); k > 0; k-- {
			p.script[n] = append(p.script[n], randAttempt(r))
		}
		if r.Intn(6) == 0 { // nothing but failures
			p.script[n] = []attempt{{dial: "fail", open: "ok", send: "ok"}}
			p.tail = 1500 * time.Second
		}
	}
	metas := []string{"", "", "10s", "0s", "abc", "3s", "-5s"}
	for g := 1 + r.Intn(3); g > 0; g-- {
		var s []step
		if r.Intn(6) == 0 {
			s = append(s, step{op: "rm", n: names[r.Intn(len(names))]})
		}
		for k := 1 + r.Intn(4); k > 0; k-- {
			n := names[r.Intn(len(names))]
			switch r.Intn(8) {
			case 0, 1, 2, 3:
				a := addrs[r.Intn(3)]
				if r.Intn(12) == 0 {
					a = ""
				}
				s = append(s, step{op: "add", n: n, meta: metas[r.Intn(len(metas))], addr: a})
			case 4, 5:
				s = append(s, step{op: "rm", n: n})
			default:
				s = append(s, step{op: "rec", n: n})
			}
			switch r.Intn(5) {
			case 0:
				s = append(s, step{op: "sleep", d: time.Duration(r.Intn(10)) * time.Second})
			case 1:
				s = append(s, step{op: "sleep", d: time.Duration(r.Intn(1500)) * time.Millisecond})
			case 2:
				s = append(s, step{op: "sleep", d: time.Duration(r.Intn(200)) * time.Second})
			}
		}
		p.steps = append(p.steps, s)
	}
	return p
}

func runProgram(p program, pk sched.Picker) ([]tr.Ev, tr.Ev) {
	w := newWorld(p.shared)
	ks := map[string]int{}
	names := map[string]bool{}
	w.script = func(n string) attempt {
		w.mu.Lock()
		defer w.mu.Unlock()
		s := p.script[n]
		k := ks[n]
		ks[n]++
		if len(w.evs) > maxEvents {
			return attempt{dial: "hang"}
		}
		return s[k%len(s)]
	}
	w.slow = func() int { return p.slow }
	ctl := vsync.NewController()
	vsync.Install(ctl)
	defer vsync.Install(nil)
	var mu sync.Mutex
	left := len(p.steps)
	over := false
	for g := range p.steps {
		go func() {
			for _, s := range p.steps[g] {
				vsync.Yield("op", nil)
				switch s.op {
				case "add":
					w.addTarget(s.n, s.meta, s.addr)
				case "rm", "rec":
					w.call(s.op, s.n, nil, 0, true, nil)
				case "sleep":
					time.Sleep(s.d)
					w.add(tr.Ev{"e": "tick"})
				}
				mu.Lock()
				names[s.n] = true
				mu.Unlock()
			}
			mu.Lock()
			left--
			last := left == 0
			mu.Unlock()
			if !last {
				return
			}
			for x := time.Duration(0); x < p.tail; x += 20 * time.Second {
				time.Sleep(20 * time.Second)
				w.add(tr.Ev{"e": "tick"})
			}
			for n := range p.script {
				w.call("rm", n, nil, 0, true, nil)
			}
			time.Sleep(200 * time.Second)
			w.add(tr.Ev{"e": "end"})
			mu.Lock()
			over = true
			mu.Unlock()
		}()
	}
	ok := sched.Run(ctl, pk, func() bool { mu.Lock(); defer mu.Unlock(); return over }, time.Hour, 100000)
	ctl.Release()
	vsync.Install(nil)
	if !ok {
		w.add(tr.Ev{"e": "stuck"})
		evs, cfg := w.finish(), w.cfg()
		for n := range p.script {
			go w.m.Remove(n)
		}
		time.Sleep(2 * time.Hour)
		synctest.Wait()
		return evs, cfg
	}
	return w.finish(), w.cfg()
}

// TestConcurrent runs random programs under random schedules.
func TestConcurrent(t *testing.T) {
	w := tr.New("conc", 6)
	defer w.Close()
	n := tr.N(1200, 20000)
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(tr.Seed()*7919 + int64(i)))
		p := randProgram(r)
		var pk sched.Picker = sched.Random{R: r}
		if i%3 == 1 {
			pk = &sched.Sticky{R: r, N: 4}
		} else if i%3 == 2 {
			pk = sched.NewPCT(r, 60, 3)
		}
		var evs []tr.Ev
		var cfg tr.Ev
		synctest.Test(t, func(t *testing.T) { evs, cfg = runProgram(p, pk) })
		w.CaseCfg(fmt.Sprint("random ", i), cfg, evs)
	}
	tr.Stats("conc", map[string]any{"cases": w.Cases, "events": w.Events})
}

// TestDFS explores small programs systematically.
func TestDFS(t *testing.T) {
	w := tr.New("dfs", 6)
	defer w.Close()
	add, rm, rec := step{op: "add", n: "t", addr: "x"}, step{op: "rm", n: "t"}, step{op: "rec", n: "t"}
	sl := func(d time.Duration) step { return step{op: "sleep", d: d} }
	ok := attempt{dial: "ok", open: "ok", send: "ok", items: []item{{kind: "upd"}, {kind: "sync"}, {kind: "hang"}}}
	end := attempt{dial: "ok", open: "ok", send: "ok", items: []item{{kind: "upd"}, {kind: "err"}}}
	empty := attempt{dial: "ok", open: "ok", send: "ok", items: []item{{kind: "eof"}}}
	ps := map[string]program{
		"add and remove":          {steps: [][]step{{add}, {rm}}, script: map[string][]attempt{"t": {ok}}},
		"two removes":             {steps: [][]step{{add, rm}, {rm}}, script: map[string][]attempt{"t": {ok}}},
		"two adds":                {steps: [][]step{{add, rm}, {add}}, script: map[string][]attempt{"t": {ok}}},
		"reconnect":               {steps: [][]step{{add}, {rec}}, script: map[string][]attempt{"t": {ok}}, tail: 20 * time.Second},
		"reconnect and remove":    {steps: [][]step{{add, rm}, {rec}}, script: map[string][]attempt{"t": {ok}}},
		"remove ended":            {steps: [][]step{{add}, {rm}}, script: map[string][]attempt{"t": {end}}},
		"reconnect ended":         {steps: [][]step{{add, rec}, {rm}}, script: map[string][]attempt{"t": {empty, end}}, tail: 20 * time.Second},
		"remove and add":          {steps: [][]step{{add, rm, add}}, script: map[string][]attempt{"t": {ok}}, tail: 20 * time.Second},
		"reconnect after failure": {steps: [][]step{{add, sl(10 * time.Second), rec, sl(10 * time.Second)}}, script: map[string][]attempt{"t": {empty, ok, ok}}},
		"timeout and remove": {steps: [][]step{{{op: "add", n: "t", addr: "x", meta: "10s"}, sl(10 * time.Second), rm}},
			script: map[string][]attempt{"t": {ok}}},
		"two targets": {steps: [][]step{{add, rm}, {{op: "add", n: "u", addr: "x"}}}, shared: true, script: map[string][]attempt{"t": {ok}, "u": {end, ok}}, tail: 20 * time.Second},
	}
	max := tr.N(60, 3000)
	full := map[string]any{}
	for name, p := range ps {
		d := &sched.DFS{Bound: tr.N(2, 3)}
		done := false
		for k := 0; k < max; k++ {
			d.Reset()
			var evs []tr.Ev
			var cfg tr.Ev
			synctest.Test(t, func(t *testing.T) { evs, cfg = runProgram(p, d) })
			w.CaseCfg(fmt.Sprint(name, " ", k), cfg, evs)
			if !d.Next() {
				done = true
				break
			}
		}
		full[name] = done
	}
	tr.Stats("dfs", map[string]any{"cases": w.Cases, "events": w.Events, "exhausted": full})
}

// TestRace uses a manager freely, for the race detector.
func TestRace(t *testing.T) {
	manager.RetryBaseDelay = time.Millisecond
	manager.RetryMaxDelay = 5 * time.Millisecond
	for i := 0; i < tr.N(6, 60); i++ {
		w := newWorld(i%2 == 0)
		seed := tr.Seed()*31 + int64(i)
		var mu sync.Mutex
		r := rand.New(rand.NewSource(seed))
		w.script = func(n string) attempt {
			mu.Lock()
			defer mu.Unlock()
			a := attempt{dial: "ok", open: "ok", send: "ok"}
			if r.Intn(4) == 0 {
				a.dial = "fail"
			}
			for k := r.Intn(4); k > 0; k-- {
				a.items = append(a.items, item{kind: "upd", delay: time.Duration(r.Intn(3)) * time.Millisecond})
			}
			a.items = append(a.items, item{kind: []string{"err", "hang", "eof"}[r.Intn(3)]})
			return a
		}
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed + int64(g)))
				for k := 0; k < 12; k++ {
					n := []string{"t", "u"}[r.Intn(2)]
					switch r.Intn(4) {
					case 0, 1:
						w.addTarget(n, []string{"", "2ms"}[r.Intn(2)], "x")
					case 2:
						w.call("rm", n, nil, 0, true, nil)
					default:
						w.call("rec", n, nil, 0, true, nil)
					}
					time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
				}
			}()
		}
		wg.Wait()
		for _, n := range []string{"t", "u"} {
			w.call("rm", n, nil, 0, true, nil)
		}
		w.mu.Lock()
		k := len(w.evs)
		w.mu.Unlock()
		time.Sleep(20 * time.Millisecond)
		w.mu.Lock()
		late := len(w.evs) != k
		w.mu.Unlock()
		w.finish()
		if late {
			fmt.Println("callback after the removal of every target")
			os.Exit(68)
		}
	}
}
