package cacheh

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"google.golang.org/grpc/peer"
	"google.golang.org/protobuf/proto"
	"verif/harness/fakes"
	"verif/harness/tr"
)

// stallStream is a subscriber whose sends can be blocked or slow.
type stallStream struct {
	id     int
	spec   subSpec
	s      *fakes.SubServer
	mu     sync.Mutex
	gate   chan struct{} // non-nil: sends block until it is closed
	slow   time.Duration
	busy   bool
	since  time.Time
	st     string
	timed  bool
	got    []tr.Ev
	cancel bool
}

type stallRun struct {
	*subRun
	start   time.Time
	timeout time.Duration
	ss      []*stallStream
	panics  []tr.Ev
	out     []tr.Ev
}

func (r *stallRun) ms(t time.Time) int { return int(t.Sub(r.start) / time.Millisecond) }

func (r *stallRun) open(sp subSpec, stalled bool, slow time.Duration) *stallStream {
	st := &stallStream{id: len(r.ss) + 1, spec: sp, st: "open", slow: slow}
	if stalled {
		st.gate = make(chan struct{})
	}
	port := 1000 + st.id
	ctx := peer.NewContext(context.Background(), &peer.Peer{Addr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}})
	st.s = fakes.NewSubServer(ctx, func(m *pb.SubscribeResponse) error {
		e := tr.Ev{"sync": m.GetUpdate() == nil}
		if n := m.GetUpdate(); n != nil {
			e["n"] = r.sendNoti(n)
			dup, odup := 0, 0
			for i, u := range n.GetUpdate() {
				if i == 0 {
					dup = int(u.GetDuplicates())
				} else {
					odup += int(u.GetDuplicates())
				}
			}
			e["dup"], e["odup"] = dup, odup
		} else {
			e["dup"], e["odup"] = 0, 0
		}
		qs := 0
		for k, v := range r.srv.ClientStats() {
			if strings.HasPrefix(k, fmt.Sprintf("127.0.0.1:%d:", port)) {
				qs = int(v.QueueSize)
			}
		}
		e["qs"] = qs
		st.mu.Lock()
		st.busy, st.since = true, time.Now()
		g, d := st.gate, st.slow
		st.mu.Unlock()
		if d > 0 {
			select {
			case <-time.After(d):
			case <-st.s.Ctx.Done():
				return st.s.Ctx.Err()
			}
		}
		if g != nil {
			select {
			case <-g:
			case <-st.s.Ctx.Done():
				return st.s.Ctx.Err()
			}
		}
		st.mu.Lock()
		st.busy = false
		st.got = append(st.got, e)
		st.mu.Unlock()
		return nil
	})
	r.ss = append(r.ss, st)
	st.s.Request(sp.request())
	go func() {
		defer func() {
			if v := recover(); v != nil {
				r.mu.Lock()
				r.panics = append(r.panics, tr.Ev{"e": "panic", "msg": fmt.Sprint(v)})
				r.mu.Unlock()
			}
		}()
		err := r.srv.Subscribe(st.s)
		st.mu.Lock()
		st.st = "ok"
		if err != nil {
			st.st = "err"
		}
		st.timed = st.busy && time.Since(st.since) >= r.timeout
		st.mu.Unlock()
		st.s.Stop() // as gRPC does when the handler returns
	}()
	return st
}

// act runs f, waits for quiescence and reports.
func (r *stallRun) act(e tr.Ev, f func()) {
	done := make(chan struct{})
	feed := []tr.Ev{}
	r.mu.Lock()
	r.evs = nil
	r.mu.Unlock()
	go func() {
		defer close(done)
		defer func() {
			if v := recover(); v != nil {
				r.mu.Lock()
				r.panics = append(r.panics, tr.Ev{"e": "panic", "msg": fmt.Sprint(v)})
				r.mu.Unlock()
			}
		}()
		f()
	}()
	synctest.Wait()
	waits := false
	if e["op"] != "adv" {
		select {
		case <-done:
		default:
			waits = true
		}
	} else {
		<-done
		synctest.Wait()
	}
	if waits {
		e["e"], e["waits"] = "op", true
		e["feed"], e["streams"], e["now"], e["obs"] = feed, []tr.Ev{}, 0, tr.Ev{}
		onStuck(append(r.out, e))
	}
	for _, x := range r.evs {
		if x["e"] == "feed" {
			feed = append(feed, x["n"].(tr.Ev))
		}
	}
	l := []tr.Ev{}
	for _, s := range r.ss {
		s.mu.Lock()
		g := s.got
		if g == nil {
			g = []tr.Ev{}
		}
		q := 0
		for _, m := range g {
			if v := m["qs"].(int); v > q {
				q = v
			}
		}
		since := 0
		if s.busy {
			since = r.ms(s.since)
		}
		l = append(l, tr.Ev{"id": s.id, "st": s.st, "blk": s.busy && s.st == "open", "since": since, "timedout": s.timed, "got": g, "qmax": q})
		s.got = nil
		s.mu.Unlock()
	}
	obs := tr.Ev{}
	for _, tg := range r.x.cfg.targets {
		obs[tg] = r.x.leaves(tg)
	}
	e["e"], e["feed"], e["streams"], e["waits"], e["now"], e["obs"] = "op", feed, l, false, r.ms(time.Now()), obs
	r.out = append(r.out, e)
	r.mu.Lock()
	r.out = append(r.out, r.panics...)
	r.mu.Unlock()
}

// TestStalls runs slow and stalled subscribers beside healthy ones.
func TestStalls(t *testing.T) {
	w := tr.New("stalls", 6)
	onStuck = func(evs []tr.Ev) {
		w.CaseCfg("a cache operation waits", tr.Ev{"timeout": 0, "nodup": false}, evs)
		w.Close()
		os.Exit(0)
	}
	n := envInt("VERIF_CASES", tr.N(400, 8000))
	for i := 0; i < n; i++ {
		seed := tr.Seed()*4_000_037 + int64(i)
		synctest.Test(t, func(t *testing.T) { stallCase(w, seed) })
	}
	w.Close()
	tr.Stats("stalls", tr.Ev{"cases": w.Cases, "events": w.Events})
}

func stallCase(w *tr.W, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	cfg := config{ed: rng.Intn(3) != 0, fam: rng.Intn(8), seed: seed, targets: subTargets[rng.Intn(len(subTargets))]}
	x := newWorld(cfg)
	nodup := rng.Intn(6) == 0
	var opts []subscribe.Option
	r := &stallRun{start: time.Now(), timeout: time.Minute}
	if rng.Intn(2) == 0 {
		r.timeout = time.Duration(5+rng.Intn(200)) * time.Second
		opts = append(opts, subscribe.WithTimeout(r.timeout))
	}
	opts = append(opts, subscribe.WithStats())
	if nodup {
		opts = append(opts, subscribe.WithoutDupReport())
	}
	srv, err := subscribe.NewServer(x.c, opts...)
	if err != nil {
		panic(err)
	}
	r.subRun = &subRun{x: x, srv: srv, cur: map[uint64]*[]tr.Ev{}, cid: map[uint64]int{}, rmd: map[string]bool{}}
	x.c.SetClient(r.onFeed)
	x.light = true
	at := 1
	hot := [][]string{x.somePath(), x.somePath()} // paths written again and again
	noti := func(tg string) *pb.Notification {
		a := x.someNoti(at)
		if rng.Intn(3) > 0 && !a.at && len(a.ups) > 0 {
			a.ups[0].p = hot[rng.Intn(2)]
			a.ups[0].v = at
		}
		at++
		return proto.Clone(x.build(tg, a)).(*pb.Notification)
	}
	tg := func() string { return cfg.targets[rng.Intn(len(cfg.targets))] }
	do := func(op, t string, n *pb.Notification) {
		r.act(tr.Ev{"op": op, "t": t}, func() { r.do(wstep{op: op, t: t, n: n}) })
	}
	for i := rng.Intn(6); i >= 0; i-- {
		t := tg()
		do("upd", t, noti(t))
	}
	gone := map[string]bool{}
	steps := 25 + rng.Intn(15)
	for i := 0; i < steps && len(r.panics) == 0; i++ {
		k := rng.Intn(40)
		switch {
		case i < 2 || (k < 4 && len(r.ss) < 5):
			t := tg()
			if rng.Intn(3) == 0 {
				t = "*"
			}
			if t != "*" && gone[t] {
				continue
			}
			var qs [][]string
			for j := 1 + rng.Intn(2); j > 0; j-- {
				qs = append(qs, x.subQuery(rng))
			}
			if rng.Intn(2) == 0 {
				qs = [][]string{{}}
			}
			sp := subSpec{acl: "off", uo: rng.Intn(5) == 0, mode: pb.SubscriptionList_STREAM}
			if rng.Intn(8) == 0 {
				sp.mode, sp.uo = pb.SubscriptionList_ONCE, false
			}
			sp.pre, sp.paths = renderQuery(rng, t, qs)
			conflict := false
			for _, p := range sp.paths {
				if p.GetOrigin() != "" && (sp.pre.GetOrigin() != "" || len(sp.pre.GetElem())+len(sp.pre.GetElement()) > 0) {
					conflict = true
				}
			}
			if conflict {
				continue
			}
			slow := time.Duration(0)
			if rng.Intn(4) == 0 {
				slow = time.Duration(float64(r.timeout) * []float64{0.1, 0.6, 0.95, 0.99}[rng.Intn(4)])
			}
			stalled := rng.Intn(4) == 0
			id := len(r.ss) + 1
			r.act(tr.Ev{"op": "open", "t": t, "sub": sp.event(id)}, func() { r.open(sp, stalled, slow) })
		case k < 8 && len(r.ss) > 0: // stall
			s := r.ss[rng.Intn(len(r.ss))]
			r.act(tr.Ev{"op": "stall", "t": fmt.Sprint(s.id)}, func() {
				s.mu.Lock()
				if s.gate == nil {
					s.gate = make(chan struct{})
				}
				s.mu.Unlock()
			})
		case k < 13 && len(r.ss) > 0: // resume
			s := r.ss[rng.Intn(len(r.ss))]
			r.act(tr.Ev{"op": "resume", "t": fmt.Sprint(s.id)}, func() {
				s.mu.Lock()
				if s.gate != nil {
					close(s.gate)
					s.gate = nil
				}
				s.mu.Unlock()
			})
		case k < 17:
			f := []float64{0.3, 0.5, 0.9, 1.0, 1.1, 2.5}[rng.Intn(6)]
			r.act(tr.Ev{"op": "adv", "t": ""}, func() { time.Sleep(time.Duration(float64(r.timeout) * f)) })
		case k == 17:
			t := tg()
			do("rst", t, nil)
		case k == 18:
			do([]string{"meta", "size", "sync", "conn"}[rng.Intn(4)], tg(), nil)
		case k == 19 && rng.Intn(2) == 0:
			t := tg()
			gone[t] = true
			do("rm", t, nil)
			do("add", t, nil)
			gone[t] = false
		case k == 20 && len(r.ss) > 0:
			s := r.ss[rng.Intn(len(r.ss))]
			s.cancel = true
			e := tr.Ev{"op": "cancel", "t": fmt.Sprint(s.id)}
			r.act(e, func() { s.s.Stop() })
		default:
			t := tg()
			do("upd", t, noti(t))
		}
	}
	for _, s := range r.ss {
		s.s.Stop()
	}
	synctest.Wait()
	w.CaseCfg(fmt.Sprintf("stalls seed %d", seed), tr.Ev{"timeout": int(r.timeout / time.Millisecond), "nodup": nodup}, r.out)
}
