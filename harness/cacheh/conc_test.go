package cacheh

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/latency"
	"github.com/openconfig/gnmi/metadata"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"verif/harness/fakes"
	"verif/harness/gp"
	"verif/harness/sched"
	"verif/harness/tr"
	"verif/harness/vsync"
)

// step is one call of a concurrent program.
type step struct {
	op string
	n  *pb.Notification
}

var onStuck func([]tr.Ev)

// conc runs the target's stream (prog) against the periodic refresh under a
// schedule; the final state is observed after one more refresh.
func conc(t *testing.T, cfg config, mk func(x *world) []step, refresh []string, pick sched.Picker) (hdr tr.Ev, evs []tr.Ev) {
	synctest.Test(t, func(t *testing.T) {
		x := newWorld(cfg)
		hdr = x.header()
		prog := mk(x)
		c := vsync.NewController()
		vsync.Install(c)
		defer vsync.Install(nil)
		var mu sync.Mutex
		left := 2
		x.sink = func(*ctree.Leaf) { vsync.Yield("feed", nil) }
		start := func(f func()) {
			go func() {
				vsync.Yield("start", nil)
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						evs = append(evs, tr.Ev{"e": "panic", "msg": fmt.Sprint(r)})
						mu.Unlock()
					}
					mu.Lock()
					left--
					mu.Unlock()
					c.Kick()
				}()
				f()
			}()
		}
		tgt := cfg.targets[0]
		start(func() {
			for _, s := range prog {
				e := tr.Ev{"e": "call", "op": s.op, "now": x.clk.k}
				switch s.op {
				case "upd":
					e["n"] = x.noti(s.n)
					e["err"] = errText(x.c.GnmiUpdate(s.n))
				case "rst":
					x.c.Reset(tgt)
				case "sync":
					x.c.Sync(tgt)
				case "conn":
					x.c.Connect(tgt)
				case "cerr":
					x.c.ConnectError(tgt, fmt.Errorf("refused"))
				}
				evs = append(evs, e)
				vsync.Yield("between", nil)
			}
		})
		start(func() {
			for _, r := range refresh {
				if r == "size" {
					x.c.UpdateSize()
				} else {
					x.c.UpdateMetadata()
				}
				vsync.Yield("between", nil)
			}
		})
		if !sched.Run(c, pick, func() bool { mu.Lock(); defer mu.Unlock(); return left == 0 }, time.Second, 20000) {
			evs = append(evs, tr.Ev{"e": "stuck"})
			onStuck(evs)
		}
		x.sink = nil
		vsync.Install(nil)
		x.clk.k++
		x.c.UpdateMetadata()
		e := tr.Ev{"e": "final", "exp": tr.Ev{tgt: x.exported(tgt)}}
		x.observe(e)
		evs = append(evs, e)
	})
	return
}

// TestConc interleaves a target's stream with the refresh of its metadata.
func TestConc(t *testing.T) {
	w := tr.New("conc", 6)
	defer w.Close()
	onStuck = func(evs []tr.Ev) {
		w.CaseCfg("stuck", tr.Ev{"ed": true, "thr": 0, "targets": []string{"t1"}}, evs)
		w.Close()
		os.Exit(0)
	}
	scheds := 0
	progs := tr.N(40, 400)
	for c := 0; c < progs; c++ {
		seed := tr.Seed()*31 + int64(c)
		mk := func(x *world) []step {
			r := rand.New(rand.NewSource(seed))
			x.rng = rand.New(rand.NewSource(seed + 1))
			var ss []step
			for i := 0; i < 3+r.Intn(4); i++ {
				switch r.Intn(7) {
				case 0:
					ss = append(ss, step{op: "sync"})
				case 1:
					ss = append(ss, step{op: "conn"})
				case 2:
					ss = append(ss, step{op: "rst"})
				case 3:
					if r.Intn(2) == 0 {
						ss = append(ss, step{op: "cerr"})
					}
				default:
					ss = append(ss, step{op: "upd", n: x.build("t1", x.someNoti(1+i))})
				}
			}
			return ss
		}
		refresh := [][]string{{"meta"}, {"meta", "meta"}, {"size", "meta"}}[c%3]
		cfg := config{ed: c%4 != 0, targets: []string{"t1"}, fam: c, seed: seed}
		d := &sched.DFS{Bound: 2}
		n := tr.N(40, 400)
		for k := 0; k < n; k++ {
			var p sched.Picker = d
			if k >= n/2 {
				p = sched.Random{R: rand.New(rand.NewSource(seed*1000 + int64(k)))}
			} else {
				d.Reset()
			}
			hdr, evs := conc(t, cfg, mk, refresh, p)
			w.CaseCfg(fmt.Sprintf("conc %d schedule %d", c, k), hdr, evs)
			scheds++
			if k < n/2 && !d.Next() {
				k = n/2 - 1
			}
		}
	}
	tr.Stats("conc", tr.Ev{"programs": progs, "schedules": scheds, "events": w.Events})
}

// TestRaceRefresh runs streams, refreshes and queries freely.
func TestRaceRefresh(t *testing.T) {
	opt, err := cache.WithLatencyWindows([]string{"2ms", "4ms"}, time.Millisecond)
	if err != nil {
		t.Fatal(err)
	}
	var k int64
	cache.Now = func() time.Time { return time.Unix(0, atomic.AddInt64(&k, 1)+base) }
	latency.Now = func() time.Time { return time.Unix(0, atomic.LoadInt64(&k)*1000+base) }
	tgts := []string{"t1", "t2"}
	c := cache.New(tgts, opt, cache.WithServerName("s"))
	srv, err := subscribe.NewServer(c)
	if err != nil {
		t.Fatal(err)
	}
	c.SetClient(srv.Update)
	stop := time.Now().Add(time.Duration(tr.N(2500, 20000)) * time.Millisecond)
	go func() { // a deadlock must not look like a timeout
		time.Sleep(time.Until(stop) + 30*time.Second)
		fmt.Println("fatal error: all goroutines are asleep (watchdog)")
		os.Exit(67)
	}()
	var wg sync.WaitGroup
	run := func(f func(i int)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; time.Now().Before(stop); i++ {
				f(i)
			}
		}()
	}
	want := map[string]*int64{}
	for _, tg := range tgts {
		n := new(int64)
		want[tg] = n
		w := &world{cfg: config{seed: tr.Seed()}, rng: rand.New(rand.NewSource(tr.Seed())), pre: map[string]*pb.Path{}}
		run(func(i int) {
			switch i % 97 {
			case 0:
				c.Sync(tg)
			case 1:
				c.Connect(tg)
			case 50:
				c.ConnectError(tg, fmt.Errorf("x"))
			case 60:
				c.Reset(tg)
			default:
				c.GnmiUpdate(w.build(tg, w.someNoti(1+i)))
			}
			atomic.AddInt64(n, 1)
		})
	}
	run(func(int) { c.UpdateMetadata() })
	run(func(int) { c.UpdateSize() })
	run(func(i int) {
		for _, md := range c.Metadata() {
			md.GetInt(metadata.LeafCount)
			md.GetBool(metadata.Sync)
		}
		c.Query("*", []string{"*"}, func(_ []string, _ *ctree.Leaf, v any) error {
			_ = v.(*pb.Notification).GetTimestamp()
			return nil
		})
	})
	ctx, cancel := context.WithCancel(context.Background())
	s := fakes.NewSubServer(ctx, func(*pb.SubscribeResponse) error { return nil })
	s.Request(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{
		Prefix: &pb.Path{Target: "*"}, Mode: pb.SubscriptionList_STREAM, Subscription: []*pb.Subscription{{Path: gp.E()}}}}})
	done := make(chan struct{})
	go func() { srv.Subscribe(s); close(done) }()
	wg.Wait()
	cancel()
	<-done
	for _, tg := range tgts {
		leaves := int64(0)
		c.Query(tg, []string{"*"}, func(p []string, _ *ctree.Leaf, _ any) error {
			if p[0] != metadata.Root {
				leaves++
			}
			return nil
		})
		if n, _ := c.Metadata()[tg].GetInt(metadata.LeafCount); n != leaves {
			fmt.Printf("target %s: leaf count %d, leaves %d\n", tg, n, leaves)
			os.Exit(68)
		}
	}
}

// ---- streams of C14 ---------------------------------------------------

type stream struct {
	id   int
	t    string
	s    *fakes.SubServer
	st   string
	got  []tr.Ev
	sync int
}

// TestStreams watches what resets and removals do to subscriptions.
func TestStreams(t *testing.T) {
	w := tr.New("streams", 4)
	n := tr.N(150, 2500)
	for i := 0; i < n; i++ {
		seed := tr.Seed()*5_000_011 + int64(i)
		synctest.Test(t, func(t *testing.T) { streamCase(w, seed) })
	}
	w.Close()
	tr.Stats("streams", tr.Ev{"cases": w.Cases, "events": w.Events})
}

func streamCase(w *tr.W, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	tgts := [][]string{{"t1", "t2"}, {"t1", "a"}, {"t1", "oc"}}[rng.Intn(3)]
	x := newWorld(config{ed: true, targets: tgts, seed: seed, fam: rng.Intn(8)})
	x.light = true
	srv, err := subscribe.NewServer(x.c)
	if err != nil {
		panic(err)
	}
	x.sink = srv.Update
	var ss []*stream
	var mu sync.Mutex
	open := func(tgt string) {
		s := &stream{id: len(ss) + 1, t: tgt, st: "open"}
		s.s = fakes.NewSubServer(context.Background(), func(r *pb.SubscribeResponse) error {
			mu.Lock()
			defer mu.Unlock()
			if r.GetSyncResponse() {
				s.sync++
			} else {
				s.got = append(s.got, gp.Noti(r.GetUpdate(), tsOf))
			}
			return nil
		})
		var subs []*pb.Subscription
		for _, q := range [][]string{{}, {"a"}, {"a", "b"}, {"*"}, {"oc", "*"}, {"b"}}[rng.Intn(6):][:1] {
			subs = append(subs, &pb.Subscription{Path: gp.E(q...)})
		}
		if rng.Intn(4) == 0 {
			subs = append(subs, &pb.Subscription{Path: gp.E("meta")})
		}
		s.s.Request(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{
			Prefix: &pb.Path{Target: tgt}, Mode: pb.SubscriptionList_STREAM, UpdatesOnly: rng.Intn(3) == 0, Subscription: subs}}})
		ss = append(ss, s)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					s.st = "panic"
					mu.Unlock()
				}
			}()
			err := srv.Subscribe(s.s)
			mu.Lock()
			s.st = "ok"
			if err != nil {
				s.st = "err"
			}
			mu.Unlock()
		}()
	}
	snap := func(e tr.Ev) {
		synctest.Wait()
		mu.Lock()
		defer mu.Unlock()
		l := []tr.Ev{}
		for _, s := range ss {
			g := s.got
			if g == nil {
				g = []tr.Ev{}
			}
			l = append(l, tr.Ev{"id": s.id, "t": s.t, "st": s.st, "got": g})
			s.got = nil
		}
		e["streams"] = l
		x.evs = append(x.evs, e)
	}
	var evs2 []tr.Ev
	known := map[string]bool{}
	for _, tg := range tgts {
		known[tg] = true
	}
	act := func(op, tgt string) {
		x.evs = nil
		was := known[tgt]
		x.feed = nil
		switch op {
		case "open":
			open(tgt)
		case "upd":
			x.clk.k++
			x.submit(x.build(tgt, x.someNoti(x.clk.k)))
		case "rst", "rm", "add", "sync", "conn", "cerr", "meta":
			x.op(op, tgt)
			known[tgt] = x.c.HasTarget(tgt)
		}
		bad := len(x.evs) > 0 && x.evs[len(x.evs)-1]["e"] == "panic"
		if bad {
			evs2 = append(evs2, x.evs[len(x.evs)-1])
			return
		}
		x.evs = nil
		snap(tr.Ev{"e": "op", "op": op, "t": tgt, "known": was})
		evs2 = append(evs2, x.evs...)
	}
	for s := 0; s < 22 && !x.dead; s++ {
		tgt := tgts[rng.Intn(2)]
		switch k := rng.Intn(20); {
		case k < 5:
			if rng.Intn(3) == 0 {
				tgt = "*"
			}
			if tgt == "*" || known[tgt] {
				act("open", tgt)
			}
		case k < 13:
			act("upd", tgt)
		case k < 14:
			act("rst", tgt)
		case k < 16:
			act("rm", tgt)
		case k < 18:
			act("add", tgt)
		default:
			act([]string{"sync", "conn", "meta", "cerr"}[rng.Intn(4)], tgt)
		}
	}
	for _, s := range ss {
		s.s.Stop()
	}
	synctest.Wait()
	w.CaseCfg(fmt.Sprintf("streams seed %d", seed), tr.Ev{"targets": tgts}, evs2)
}
