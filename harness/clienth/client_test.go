// Package clienth records the client library's Subscribe and Close.
package clienth

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openconfig/gnmi/client"
	fclient "github.com/openconfig/gnmi/client/fake"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/proto"
	"verif/harness/sched"
	"verif/harness/tr"
	"verif/harness/vsync"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

type item struct {
	gap  int // milliseconds before the message
	kind string
	n, d int // updates and deletes
}

type attempt struct {
	delay int
	conn  string // ok, err, block, suberr
	items []item
	end   string // err, eof, stop, block
	egap  int
}

type program struct {
	layer   string // own, fake, gnmi, cli
	wrap    string // base, cache
	rc      bool
	cb      bool
	proto   bool
	poll    int
	resub   int // Subscribe calls after the client was closed
	fin     int
	typ     client.Type
	alt     bool // a second client type that never connects
	atts    []attempt
	subAt   int
	closeAt []int
	cancel  int // -1: never
	base    int
	max     int
	rnd     int
}

var forever = attempt{conn: "ok", end: "block"}

type world struct {
	mu     sync.Mutex
	evs    []tr.Ev
	p      program
	start  time.Time
	k      int
	next   func(k int) attempt // overrides the script
	answer chan string         // replay: the environment's next move
	dead   atomic.Bool         // the run was given up
	conns  []*grpc.ClientConn
}

func (w *world) add(e tr.Ev) {
	if w.dead.Load() {
		runtime.Goexit()
	}
	w.mu.Lock()
	e["t"] = int(time.Since(w.start) / time.Millisecond)
	w.evs = append(w.evs, e)
	w.mu.Unlock()
}

func (w *world) script(k int) attempt {
	if k <= len(w.p.atts) {
		return w.p.atts[k-1]
	}
	return forever
}

func (w *world) attBegin() (int, attempt) {
	w.mu.Lock()
	w.k++
	k := w.k
	w.mu.Unlock()
	w.add(tr.Ev{"e": "att", "k": k})
	vsync.Yield("att", nil)
	return k, w.script(k)
}

func (w *world) over(k int) {
	w.add(tr.Ev{"e": "over", "k": k})
	vsync.Yield("over", nil)
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// pause waits unless ctx or closed ends it.
func pause(ctx context.Context, closed <-chan struct{}, n int) error {
	if n == 0 {
		vsync.Yield("recv", nil)
		return nil
	}
	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-closed:
		return errors.New("closed")
	case <-time.After(ms(n)):
	}
	vsync.Yield("recv", nil)
	return nil
}

// connect plays the beginning of an attempt.
func connect(ctx context.Context, a attempt) error {
	if err := pause(ctx, nil, a.delay); err != nil {
		return err
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	switch a.conn {
	case "err":
		return errors.New("scripted connection error")
	case "block":
		<-ctx.Done()
		return ctx.Err()
	}
	return nil
}

func endErr(ctx context.Context, closed <-chan struct{}, a attempt) error {
	if err := pause(ctx, closed, a.egap); err != nil {
		return err
	}
	switch a.end {
	case "err":
		return errors.New("scripted stream error")
	case "eof":
		return io.EOF
	case "stop":
		return client.ErrStopReading
	}
	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-closed:
		return errors.New("closed")
	}
}

// notes are the notifications item m of attempt k contains.
func (it item) notes(k, m int) (ns []client.Notification, ids []string) {
	ids = []string{}
	for i := 0; i < it.n; i++ {
		p := client.Path{fmt.Sprint(k), fmt.Sprint(m), fmt.Sprint("u", i)}
		ns = append(ns, client.Update{Path: p, TS: time.Unix(0, 1), Val: int64(i)})
		ids = append(ids, fmt.Sprint(p))
	}
	for i := 0; i < it.d; i++ {
		p := client.Path{fmt.Sprint(k), fmt.Sprint(m), fmt.Sprint("d", i)}
		ns = append(ns, client.Delete{Path: p, TS: time.Unix(0, 1)})
		ids = append(ids, "-"+fmt.Sprint(p))
	}
	if it.kind == "sync" {
		ns = append(ns, client.Sync{})
		ids = append(ids, "sync")
	}
	return ns, ids
}

func noteID(n client.Notification) string {
	switch v := n.(type) {
	case client.Connected:
		return "connected"
	case client.Sync:
		return "sync"
	case client.Update:
		return fmt.Sprint([]string(v.Path[len(v.Path)-3:]))
	case client.Delete:
		return "-" + fmt.Sprint([]string(v.Path[len(v.Path)-3:]))
	}
	return fmt.Sprintf("%T", n)
}

func (w *world) handle(n client.Notification) error {
	vsync.Yield("handler", nil)
	w.add(tr.Ev{"e": "note", "x": noteID(n)})
	vsync.Yield("handled", nil)
	return nil
}

func (w *world) handleProto(m proto.Message) error {
	vsync.Yield("handler", nil)
	x := "?"
	if r, ok := m.(*gpb.SubscribeResponse); ok {
		x = protoID(r)
	}
	w.add(tr.Ev{"e": "note", "x": x})
	vsync.Yield("handled", nil)
	return nil
}

func protoID(r *gpb.SubscribeResponse) string {
	if r.GetSyncResponse() {
		return "sync"
	}
	if r.GetUpdate() == nil {
		return "error"
	}
	return "m" + r.GetUpdate().GetPrefix().GetElem()[0].GetName() + "." + r.GetUpdate().GetPrefix().GetElem()[1].GetName()
}

// own is a scripted implementation.
type own struct {
	w      *world
	k      int
	a      attempt
	ctx    context.Context
	q      client.Query
	m      int
	conn   bool
	once   sync.Once
	closed chan struct{}
}

func (o *own) Subscribe(ctx context.Context, q client.Query) error {
	o.ctx, o.q = ctx, q
	vsync.Yield("subscribe", nil)
	if o.a.conn == "suberr" {
		o.w.over(o.k)
		return errors.New("scripted subscribe error")
	}
	return nil
}

func (o *own) Recv() error {
	if o.m < len(o.a.items) {
		it := o.a.items[o.m]
		if err := pause(o.ctx, o.closed, it.gap); err != nil {
			o.w.over(o.k)
			return err
		}
		o.m++
		ns, ids := it.notes(o.k, o.m)
		o.w.add(tr.Ev{"e": "recv", "k": o.k, "m": fmt.Sprint(o.k, ".", o.m), "n": ids})
		if !o.conn {
			o.q.NotificationHandler(client.Connected{})
			o.conn = true
		}
		for _, n := range ns {
			o.q.NotificationHandler(n)
		}
		return nil
	}
	err := endErr(o.ctx, o.closed, o.a)
	o.w.over(o.k)
	return err
}

func (o *own) Poll() error { return nil }
func (o *own) Close() error {
	vsync.Yield("close", nil)
	o.once.Do(func() { close(o.closed) })
	return nil
}

// recorded wraps the repository's fake client.
type recorded struct {
	client.Impl
	w      *world
	k      int
	a      attempt
	ctx    context.Context
	m      int
	once   sync.Once
	closed chan struct{}
}

func (o *recorded) Subscribe(ctx context.Context, q client.Query) error {
	o.ctx = ctx
	return o.Impl.Subscribe(ctx, q)
}

func (o *recorded) Recv() error {
	gap := o.a.egap
	if o.m < len(o.a.items) {
		gap = o.a.items[o.m].gap
	}
	if err := pause(o.ctx, o.closed, gap); err != nil {
		o.w.over(o.k)
		return err
	}
	if o.m < len(o.a.items) {
		_, ids := o.a.items[o.m].notes(o.k, o.m+1)
		o.m++
		o.w.add(tr.Ev{"e": "recv", "k": o.k, "m": fmt.Sprint(o.k, ".", o.m), "n": ids})
	} else {
		ids := []string{}
		if o.a.end == "stop" {
			ids = append(ids, "sync")
		}
		if o.a.end != "block" || len(o.a.items) == 0 {
			o.w.add(tr.Ev{"e": "recv", "k": o.k, "m": fmt.Sprint(o.k, ".end"), "n": ids})
		}
	}
	err := o.Impl.Recv()
	if err != nil {
		o.w.over(o.k)
	}
	return err
}

func (o *recorded) Close() error {
	o.once.Do(func() { close(o.closed) })
	return o.Impl.Close()
}

// fakeImpl is the repository's fake client playing an attempt.
func (w *world) fakeImpl(ctx context.Context, k int, a attempt) client.Impl {
	var us []any
	for m, it := range a.items {
		ns, _ := it.notes(k, m+1)
		us = append(us, ns[0])
	}
	switch a.end {
	case "err":
		us = append(us, errors.New("scripted stream error"))
	case "eof":
		us = append(us, io.EOF)
	case "block":
		us = append(us, make(fclient.Block))
	}
	return &recorded{Impl: &fclient.Client{Context: ctx, Updates: us}, w: w, k: k, a: a, closed: make(chan struct{})}
}

// stream plays an attempt beneath the real gNMI client.
type stream struct {
	grpc.ClientStream
	w      *world
	k      int
	a      attempt
	ctx    context.Context
	closed chan struct{}
	m      int
	req    *gpb.SubscribeRequest
}

func (s *stream) Context() context.Context { return s.ctx }
func (s *stream) SendMsg(m any) error {
	s.req = m.(*gpb.SubscribeRequest)
	return nil
}
func (s *stream) CloseSend() error { return nil }

func (s *stream) RecvMsg(m any) error {
	out := m.(*gpb.SubscribeResponse)
	if s.m >= len(s.a.items) {
		err := endErr(s.ctx, s.closed, s.a)
		s.w.over(s.k)
		return err
	}
	it := s.a.items[s.m]
	if err := pause(s.ctx, s.closed, it.gap); err != nil {
		s.w.over(s.k)
		return err
	}
	s.m++
	_, ids := it.notes(s.k, s.m)
	r := &gpb.SubscribeResponse{}
	switch it.kind {
	case "sync":
		r.Response = &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}
	case "error":
		r.Response = &gpb.SubscribeResponse_Error{Error: &gpb.Error{Message: "scripted"}}
		ids = []string{}
	default:
		e := func(x ...any) (es []*gpb.PathElem) {
			for _, y := range x {
				es = append(es, &gpb.PathElem{Name: fmt.Sprint(y)})
			}
			return es
		}
		n := &gpb.Notification{Timestamp: 1, Prefix: &gpb.Path{Target: "t", Elem: e(s.k, s.m)}}
		for i := 0; i < it.n; i++ {
			n.Update = append(n.Update, &gpb.Update{Path: &gpb.Path{Elem: e(fmt.Sprint("u", i))}, Val: &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: int64(i)}}})
		}
		for i := 0; i < it.d; i++ {
			n.Delete = append(n.Delete, &gpb.Path{Elem: e(fmt.Sprint("d", i))})
		}
		r.Response = &gpb.SubscribeResponse_Update{Update: n}
	}
	if s.w.p.proto {
		ids = []string{protoID(r)}
	}
	s.w.add(tr.Ev{"e": "recv", "k": s.k, "m": fmt.Sprint(s.k, ".", s.m), "n": ids})
	proto.Reset(out)
	proto.Merge(out, r)
	return nil
}

// lastly marks messages after which the gNMI client stops by itself.
type lastly struct {
	client.Impl
	w *world
	k int
	s **stream
}

func (x *lastly) Recv() error {
	m := 0
	if *x.s != nil {
		m = (*x.s).m
	}
	err := x.Impl.Recv()
	if err != nil && *x.s != nil && (*x.s).m != m {
		x.w.over(x.k)
	}
	return err
}

func (w *world) gnmiImpl(ctx context.Context, k int, a attempt, d client.Destination) (client.Impl, error) {
	var st *stream
	conn, err := grpc.NewClient("passthrough:///x", grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithStreamInterceptor(func(ctx context.Context, _ *grpc.StreamDesc, cc *grpc.ClientConn, _ string, _ grpc.Streamer, _ ...grpc.CallOption) (grpc.ClientStream, error) {
			vsync.Yield("subscribe", nil)
			if err := ctx.Err(); err != nil {
				w.over(k)
				return nil, err
			}
			if a.conn == "suberr" {
				w.over(k)
				return nil, errors.New("scripted subscribe error")
			}
			st = &stream{w: w, k: k, a: a, ctx: ctx, closed: make(chan struct{})}
			go func() {
				for s := cc.GetState(); s != connectivity.Shutdown; s = cc.GetState() {
					cc.WaitForStateChange(context.Background(), s)
				}
				close(st.closed)
			}()
			return st, nil
		}))
	if err != nil {
		panic(err)
	}
	w.mu.Lock()
	w.conns = append(w.conns, conn)
	w.mu.Unlock()
	c, err := gclient.NewFromConn(ctx, conn, d)
	if err != nil {
		return nil, err
	}
	return &lastly{Impl: c, w: w, k: k, s: &st}, nil
}

func (w *world) factory(ctx context.Context, d client.Destination) (client.Impl, error) {
	k, a := w.attBegin()
	if err := connect(ctx, a); err != nil {
		w.over(k)
		return nil, err
	}
	switch w.p.layer {
	case "fake":
		return w.fakeImpl(ctx, k, a), nil
	case "gnmi":
		return w.gnmiImpl(ctx, k, a, d)
	}
	return &own{w: w, k: k, a: a, closed: make(chan struct{})}, nil
}

// scripted is a user-provided client.Client.
type scripted struct {
	client.Client
	w    *world
	mu   sync.Mutex
	cur  *own
	dead bool
}

func (c *scripted) Subscribe(ctx context.Context, q client.Query, _ ...string) error {
	k, a := c.w.attBegin()
	if err := connect(ctx, a); err != nil || a.conn == "suberr" {
		c.w.over(k)
		return errors.New("scripted connection error")
	}
	o := &own{w: c.w, k: k, a: a, ctx: ctx, q: q, closed: make(chan struct{})}
	c.mu.Lock()
	c.cur = o
	c.mu.Unlock()
	for {
		err := o.Recv()
		if err == io.EOF || err == client.ErrStopReading {
			return nil
		}
		if err != nil {
			return err
		}
		select {
		case <-o.closed:
			return nil
		default:
		}
	}
}

func (c *scripted) Close() error {
	c.mu.Lock()
	cur := c.cur
	c.mu.Unlock()
	if cur == nil {
		return client.ErrClientInit
	}
	return cur.Close()
}

func (w *world) guard(f func()) {
	defer func() {
		if x := recover(); x != nil {
			w.add(tr.Ev{"e": "panic", "msg": fmt.Sprint(x)})
		}
	}()
	f()
}

func (w *world) client() client.Client {
	p := w.p
	client.ResetRegisteredImpls()
	client.RegisterTest("main", w.factory)
	client.RegisterTest("alt", func(ctx context.Context, _ client.Destination) (client.Impl, error) {
		return nil, errors.New("alt never connects")
	})
	var c client.Client
	switch {
	case p.layer == "cli":
		c = &scripted{w: w}
	case p.wrap == "cache":
		c = client.New()
	default:
		c = &client.BaseClient{}
	}
	if p.rc {
		client.RetryBaseDelay, client.RetryMaxDelay, client.RetryRandomization = ms(p.base), ms(p.max), float64(p.rnd)/100
		if p.cb {
			c = client.Reconnect(c,
				func() { w.add(tr.Ev{"e": "disc"}); vsync.Yield("disc", nil) },
				func() { w.add(tr.Ev{"e": "resetcb"}); vsync.Yield("reset", nil) })
		} else {
			c = client.Reconnect(c, nil, nil)
		}
	}
	return c
}

func (w *world) query() (client.Query, []string) {
	q := client.Query{Addrs: []string{"x"}, Target: "t", Queries: []client.Path{{"a"}}, Type: w.p.typ, NotificationHandler: w.handle}
	if w.p.proto {
		q.NotificationHandler, q.ProtoHandler = nil, w.handleProto
	}
	ts := []string{"main"}
	if w.p.alt {
		ts = append(ts, "alt")
	}
	return q, ts
}

func (w *world) subscribe(ctx context.Context, c client.Client) {
	w.guard(func() {
		q, ts := w.query()
		w.add(tr.Ev{"e": "sub"})
		c.Subscribe(ctx, q, ts...)
		w.add(tr.Ev{"e": "subret"})
		for i := 0; i < w.p.resub; i++ {
			vsync.Yield("op", nil)
			w.add(tr.Ev{"e": "sub"})
			c.Subscribe(ctx, q, ts...)
			w.add(tr.Ev{"e": "subret"})
		}
		for i := 0; i < w.p.poll; i++ {
			w.add(tr.Ev{"e": "poll"})
			c.Poll()
			w.add(tr.Ev{"e": "subret"})
		}
	})
}

func (w *world) closeIt(i int, c client.Client) {
	w.guard(func() {
		w.add(tr.Ev{"e": "close", "c": i})
		err := c.Close()
		w.add(tr.Ev{"e": "closeret", "c": i, "ok": err != client.ErrClientInit})
	})
}

func (p program) cfg() tr.Ev {
	return tr.Ev{"rc": p.rc, "cb": p.cb, "conn": !p.proto && p.typ != 0, "base": p.base, "max": p.max, "rand": p.rnd}
}

func run(p program, pk sched.Picker) []tr.Ev {
	w := &world{p: p, start: time.Now()}
	c := w.client()
	ctl := vsync.NewController()
	vsync.Install(ctl)
	defer vsync.Install(nil)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var mu sync.Mutex
	left := 0
	spawn := func(f func()) {
		left++
		go func() {
			defer func() { mu.Lock(); left--; mu.Unlock() }()
			f()
		}()
	}
	at := func(n int) {
		if n > 0 {
			time.Sleep(ms(n))
		}
		vsync.Yield("op", nil)
	}
	spawn(func() { at(p.subAt); w.subscribe(ctx, c) })
	for i, t := range p.closeAt {
		spawn(func() { at(t); w.closeIt(i+1, c) })
	}
	if p.cancel >= 0 {
		spawn(func() { at(p.cancel); w.add(tr.Ev{"e": "cancel"}); cancel() })
	}
	spawn(func() {
		at(p.fin + 300000)
		if p.rc && len(p.closeAt) == 0 && p.cancel < 0 {
			w.add(tr.Ev{"e": "expect", "k": len(p.atts) + 1})
		}
		w.closeIt(100, c)
		w.closeIt(101, c)
	})
	ok := sched.Run(ctl, pk, func() bool { mu.Lock(); defer mu.Unlock(); return left == 0 }, ms(p.fin)+400*time.Second, 5000)
	if !ok {
		w.add(tr.Ev{"e": "stuck"})
		w.dead.Store(true)
	} else {
		w.add(tr.Ev{"e": "end"})
	}
	ctl.Release()
	vsync.Install(nil)
	cancel()
	if !ok {
		time.Sleep(ms(p.fin) + time.Hour)
	}
	w.mu.Lock()
	if !ok {
		for _, c := range w.conns {
			c.Close()
		}
	}
	evs := append([]tr.Ev(nil), w.evs...)
	w.mu.Unlock()
	return evs
}

func randItems(r *rand.Rand, p program) (is []item) {
	for n := r.Intn(4); n > 0; n-- {
		it := item{gap: 250 * r.Intn(4), kind: "data", n: r.Intn(3), d: r.Intn(2)}
		if r.Intn(3) == 0 {
			it.gap = 0
		}
		if it.n+it.d == 0 {
			it.n = 1
		}
		if p.layer == "fake" {
			it.n, it.d = 1, 0
			if r.Intn(3) == 0 {
				it.n, it.d = 0, 1
			}
		}
		if r.Intn(5) == 0 {
			it = item{gap: it.gap, kind: "sync"}
		}
		if p.layer == "gnmi" && r.Intn(12) == 0 {
			it = item{gap: it.gap, kind: "error"}
		}
		is = append(is, it)
		if p.layer == "gnmi" && !p.proto && (it.kind == "error" || it.kind == "sync" && p.typ != client.Stream) {
			return is
		}
	}
	return is
}

func randProgram(r *rand.Rand) program {
	p := program{
		layer: []string{"own", "fake", "gnmi", "gnmi", "cli"}[r.Intn(5)], wrap: []string{"base", "cache"}[r.Intn(2)],
		rc: r.Intn(4) > 0, cb: r.Intn(8) > 0, typ: client.Stream, cancel: -1,
		base: []int{500, 1000}[r.Intn(2)], max: []int{2000, 4000, 1000}[r.Intn(3)], rnd: []int{0, 0, 50}[r.Intn(3)],
		alt: r.Intn(5) == 0,
	}
	if p.layer == "cli" {
		p.rc = true
	}
	if !p.rc {
		p.cb = false
	}
	if r.Intn(5) == 0 && p.layer != "cli" {
		p.typ = client.Poll
	}
	if p.layer == "gnmi" && p.wrap == "base" && r.Intn(4) == 0 {
		p.proto = true
	}
	n := 1
	if p.rc {
		n = r.Intn(5)
	}
	total := 0
	for ; n > 0; n-- {
		a := attempt{conn: "ok", end: []string{"err", "eof", "stop", "err"}[r.Intn(4)], egap: 250 * r.Intn(3)}
		switch r.Intn(8) {
		case 0, 1:
			a.conn = "err"
		case 2:
			a.conn = "suberr"
		}
		if r.Intn(2) == 0 {
			a.delay = 250 * r.Intn(5)
		}
		a.items = randItems(r, p)
		if k := len(a.items); k > 0 && p.typ == client.Poll && p.layer == "gnmi" && a.items[k-1].kind == "sync" && !p.rc && a.conn == "ok" {
			// later polls read on
			p.poll = r.Intn(3)
			for i := 0; i < p.poll; i++ {
				a.items = append(a.items, item{kind: "data", n: 2}, item{kind: "sync"})
			}
		}
		total += a.delay + a.egap + 1000
		for _, it := range a.items {
			total += it.gap
		}
		p.atts = append(p.atts, a)
	}
	for k := []int{0, 1, 1, 1, 2}[r.Intn(5)]; k > 0; k-- {
		p.closeAt = append(p.closeAt, 250*r.Intn(total/250+3))
	}
	if r.Intn(4) == 0 {
		p.subAt = 250 * r.Intn(4)
	}
	if r.Intn(8) == 0 {
		p.cancel = 250 * r.Intn(total/250+3)
	}
	if p.rc && r.Intn(6) == 0 {
		p.resub = 1 + r.Intn(2)
	}
	if p.rc && r.Intn(25) == 0 {
		// failing for a long time
		p.base, p.max, p.atts = 1000, 60000, nil
		for i := 0; i < 20+r.Intn(20); i++ {
			p.atts = append(p.atts, attempt{conn: "err"})
		}
		p.fin = len(p.atts) * 90000
	}
	if p.poll > 0 {
		p.closeAt, p.cancel = nil, -1
	}
	return p
}

func (p program) String() string {
	j, _ := json.Marshal(map[string]any{"layer": p.layer, "wrap": p.wrap, "rc": p.rc, "cb": p.cb, "proto": p.proto, "poll": p.poll, "typ": p.typ.String(),
		"atts": fmt.Sprintf("%+v", p.atts), "sub": p.subAt, "close": p.closeAt, "cancel": p.cancel})
	return string(j)
}

// TestTimed runs random scripts and closing times under random schedules.
func TestTimed(t *testing.T) {
	w := tr.New("timed", 6)
	defer w.Close()
	for i := 0; i < tr.N(8000, 80000); i++ {
		r := rand.New(rand.NewSource(tr.Seed()*104729 + int64(i)))
		p := randProgram(r)
		var pk sched.Picker = sched.Random{R: r}
		if i%3 == 1 {
			pk = &sched.Sticky{R: r, N: 4}
		} else if i%3 == 2 {
			pk = sched.NewPCT(r, 40, 3)
		}
		var evs []tr.Ev
		synctest.Test(t, func(t *testing.T) { evs = run(p, pk) })
		w.CaseCfg(fmt.Sprint(i, " ", p), p.cfg(), evs)
	}
	tr.Stats("timed", map[string]any{"cases": w.Cases, "events": w.Events})
}

// TestDFS explores Close at one moment systematically.
func TestDFS(t *testing.T) {
	w := tr.New("dfs", 6)
	defer w.Close()
	max := tr.N(250, 8000)
	full := map[string]any{}
	one := []item{{kind: "data", n: 1}, {kind: "data", n: 2}}
	for _, layer := range []string{"own", "gnmi", "cli"} {
		for name, p := range map[string]program{
			"close at once":      {closeAt: []int{0}},
			"close with connect": {closeAt: []int{250}, atts: []attempt{{delay: 250, conn: "ok", items: one, end: "block"}}},
			"close with message": {closeAt: []int{250}, atts: []attempt{{conn: "ok", items: append([]item{{gap: 250, kind: "data", n: 1}}, one...), end: "err"}}},
			"close with error":   {closeAt: []int{250}, atts: []attempt{{conn: "ok", end: "err", egap: 250}}},
			"close with retry":   {closeAt: []int{1000}, atts: []attempt{{conn: "err"}, {conn: "ok", items: one, end: "eof"}}},
			"two closes":         {closeAt: []int{250, 250}, atts: []attempt{{conn: "ok", items: one, end: "block"}}},
			"cancel and close":   {closeAt: []int{250}, cancel: 250, atts: []attempt{{conn: "ok", items: one, end: "block"}}},
		} {
			p.layer, p.wrap, p.typ, p.base, p.max = layer, "base", client.Stream, 1000, 2000
			if name != "cancel and close" {
				p.cancel = -1
			}
			for _, rc := range []bool{true, false} {
				if layer == "cli" && !rc {
					continue
				}
				p.rc, p.cb = rc, rc
				d := &sched.DFS{Bound: tr.N(2, 3)}
				done := false
				for k := 0; k < max; k++ {
					d.Reset()
					var evs []tr.Ev
					synctest.Test(t, func(t *testing.T) { evs = run(p, d) })
					w.CaseCfg(fmt.Sprint(name, " ", k, " ", p), p.cfg(), evs)
					if !d.Next() {
						done = true
						break
					}
				}
				full[fmt.Sprint(layer, " ", name, " ", rc)] = done
			}
		}
	}
	tr.Stats("dfs", map[string]any{"cases": w.Cases, "events": w.Events, "exhausted": full})
}

type op struct {
	Op string `json:"op"`
	X  string `json:"x"`
}

// steered is an implementation whose every move the history decides.
type steered struct {
	w      *world
	k, m   int
	ctx    context.Context
	q      client.Query
	conn   bool
	once   sync.Once
	closed chan struct{}
}

func (o *steered) Subscribe(ctx context.Context, q client.Query) error {
	o.ctx, o.q = ctx, q
	return nil
}
func (o *steered) Poll() error  { return nil }
func (o *steered) Close() error { o.once.Do(func() { close(o.closed) }); return nil }
func (o *steered) Recv() error {
	select {
	case x := <-o.w.answer:
		switch x {
		case "msg":
			o.m++
			ns, ids := item{n: 2, d: 1}.notes(o.k, o.m)
			o.w.add(tr.Ev{"e": "recv", "k": o.k, "m": fmt.Sprint(o.k, ".", o.m), "n": ids})
			if !o.conn {
				o.q.NotificationHandler(client.Connected{})
				o.conn = true
			}
			for _, n := range ns {
				o.q.NotificationHandler(n)
			}
			return nil
		case "eof":
			o.w.over(o.k)
			return io.EOF
		}
		o.w.over(o.k)
		return errors.New("scripted")
	case <-o.ctx.Done():
		o.w.over(o.k)
		return o.ctx.Err()
	case <-o.closed:
		o.w.over(o.k)
		return errors.New("closed")
	}
}

func replay(h []op) (program, []tr.Ev) {
	p := program{layer: "own", wrap: "base", rc: true, cb: true, typ: client.Stream, base: 1000, max: 4000}
	w := &world{p: p, start: time.Now(), answer: make(chan string)}
	c := w.client()
	client.RegisterTest("main", func(ctx context.Context, _ client.Destination) (client.Impl, error) {
		k, _ := w.attBegin()
		select {
		case x := <-w.answer:
			if x == "ok" {
				return &steered{w: w, k: k, closed: make(chan struct{})}, nil
			}
		case <-ctx.Done():
		}
		w.over(k)
		return nil, errors.New("scripted")
	})
	ctx, cancel := context.WithCancel(context.Background())
	subs := false
	for i, o := range h {
		switch o.Op {
		case "sub":
			subs = true
			go w.subscribe(ctx, c)
		case "close":
			go w.closeIt(i+1, c)
		case "cancel":
			w.add(tr.Ev{"e": "cancel"})
			cancel()
		case "wake":
			time.Sleep(ms(p.max))
		default:
			select {
			case w.answer <- o.X:
			default:
				w.add(tr.Ev{"e": "stuck", "at": i})
			}
		}
		synctest.Wait()
	}
	go w.closeIt(100, c)
	time.Sleep(ms(p.max))
	synctest.Wait()
	if subs {
		w.add(tr.Ev{"e": "end"})
	}
	cancel()
	w.mu.Lock()
	defer w.mu.Unlock()
	return p, append([]tr.Ev(nil), w.evs...)
}

// TestReplay steps TLC's histories.
func TestReplay(t *testing.T) {
	f, err := os.Open(os.Getenv("VERIF_HIST"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	w := tr.New("replay", 4)
	defer w.Close()
	sc := bufio.NewScanner(f)
	for i := 0; sc.Scan(); i++ {
		var h []op
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			t.Fatal(err)
		}
		synctest.Test(t, func(t *testing.T) {
			p, evs := replay(h)
			w.CaseCfg(fmt.Sprint("history ", i, " ", sc.Text()), p.cfg(), evs)
		})
	}
	tr.Stats("replay", map[string]any{"cases": w.Cases, "events": w.Events})
}

// TestRace closes while everything happens, for the race detector.
func TestRace(t *testing.T) {
	client.RetryBaseDelay, client.RetryMaxDelay, client.RetryRandomization = time.Millisecond, 2*time.Millisecond, 0.5
	for i := 0; i < tr.N(90, 2000); i++ {
		r := rand.New(rand.NewSource(tr.Seed()*31 + int64(i)))
		p := program{layer: []string{"own", "gnmi", "fake"}[i%3], wrap: []string{"base", "cache"}[i%2], rc: i%5 > 0, typ: client.Stream, base: 1, max: 2, rnd: 50}
		for k := 0; k < 3; k++ {
			p.atts = append(p.atts, attempt{conn: "ok", end: []string{"err", "eof"}[r.Intn(2)], items: []item{{n: 1}, {n: 1, gap: r.Intn(2)}, {d: 1}}})
		}
		w := &world{p: p, start: time.Now()}
		c := w.client()
		done := make(chan bool)
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		go func() { w.subscribe(ctx, c); close(done) }()
		d := time.Duration(r.Intn(4000)) * time.Microsecond
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func() { defer wg.Done(); time.Sleep(d); c.Close() }()
		}
		if cc, ok := c.(*client.CacheClient); ok {
			cc.Leaves()
		}
		c.Impl()
		wg.Wait()
		if !p.rc {
			// a Close that came too early was refused
			for {
				if err := c.Close(); err == nil {
					break
				}
				select {
				case <-done:
				case <-time.After(time.Millisecond):
					continue
				}
				break
			}
			cancel()
		}
		select {
		case <-done:
		case <-time.After(15 * time.Second):
			fmt.Println("Subscribe has not returned")
			os.Exit(67)
		}
		cancel()
	}
}
