package cacheh

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openconfig/gnmi/ctree"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"verif/harness/fakes"
	"verif/harness/gp"
	"verif/harness/sched"
	"verif/harness/tr"
	"verif/harness/vsync"
)

// ---- access control ---------------------------------------------------

type aclKey struct{}

type fakeACL struct{}

type rpcACL struct{ allow map[string]bool }

func (fakeACL) NewRPCACL(ctx context.Context) (subscribe.RPCACL, error) {
	a, ok := ctx.Value(aclKey{}).([]string)
	if !ok {
		return nil, errors.New("no credentials")
	}
	r := &rpcACL{allow: map[string]bool{}}
	for _, t := range a {
		r.allow[t] = true
	}
	return r, nil
}

func (fakeACL) Check(string, string) bool { return false }

func (r *rpcACL) Check(t string) bool { return r.allow[t] }

// ---- a subscription ---------------------------------------------------

type subSpec struct {
	pre   *pb.Path
	paths []*pb.Path
	mode  pb.SubscriptionList_Mode
	uo    bool
	acl   string // "off", "on", "broken"
	allow []string
	polls int
	extra int64 // seed of the other fields of the request
	late  bool  // starts after the writers have begun
}

func (s subSpec) request() *pb.SubscribeRequest {
	l := &pb.SubscriptionList{Prefix: s.pre, Mode: s.mode, UpdatesOnly: s.uo}
	for _, p := range s.paths {
		l.Subscription = append(l.Subscription, &pb.Subscription{Path: p})
	}
	if s.extra != 0 {
		// what has no say in which leaves are sent
		r := rand.New(rand.NewSource(s.extra))
		l.Encoding = pb.Encoding(r.Intn(5))
		l.AllowAggregation = r.Intn(2) == 0
		if r.Intn(2) == 0 {
			l.Qos = &pb.QOSMarking{Marking: uint32(r.Intn(64))}
		}
		if r.Intn(3) == 0 {
			l.UseModels = []*pb.ModelData{{Name: "openconfig-interfaces", Organization: "OpenConfig", Version: "2.0.0"}}
		}
		for _, x := range l.Subscription {
			x.Mode = pb.SubscriptionMode(r.Intn(3))
			x.SampleInterval = uint64(r.Intn(2)) * 1_000_000_000
			x.HeartbeatInterval = uint64(r.Intn(2)) * 10_000_000_000
			x.SuppressRedundant = r.Intn(3) == 0
		}
	}
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: l}}
}

func (s subSpec) event(id int) tr.Ev {
	ps := []tr.Ev{}
	for _, p := range s.paths {
		ps = append(ps, gp.Path(p))
	}
	al := s.allow
	if al == nil {
		al = []string{}
	}
	return tr.Ev{"e": "sub", "id": id, "pre": gp.Path(s.pre), "paths": ps, "mode": s.mode.String(), "uo": s.uo, "acl": s.acl, "allow": al}
}

// renderQuery renders index paths as a subscription's prefix and paths.
func renderQuery(r *rand.Rand, tgt string, qs [][]string) (*pb.Path, []*pb.Path) {
	pre := &pb.Path{Target: tgt}
	k := 0
	if len(qs) > 0 {
		k = len(qs[0])
		for _, q := range qs {
			i := 0
			for i < k && i < len(q) && q[i] == qs[0][i] {
				i++
			}
			k = i
		}
		k = r.Intn(k + 1)
	}
	plain := func(idx []string) *pb.Path {
		if len(idx) > 0 && r.Intn(8) == 0 {
			return &pb.Path{Element: append([]string{}, idx...)}
		}
		return &pb.Path{Elem: elems(idx, r)}
	}
	if k > 0 {
		idx := qs[0][:k]
		o := ""
		if idx[0] != "*" && r.Intn(3) == 0 {
			o, idx = idx[0], idx[1:]
		}
		p := plain(idx)
		pre.Elem, pre.Element, pre.Origin = p.Elem, p.Element, o
	}
	var ps []*pb.Path
	for _, q := range qs {
		idx := q[k:]
		o := ""
		if k == 0 && len(idx) > 0 && idx[0] != "*" && r.Intn(3) == 0 {
			o, idx = idx[0], idx[1:]
		}
		if k > 0 && r.Intn(40) == 0 {
			o = "oc" // conflicts with the prefix
		}
		p := plain(idx)
		p.Origin = o
		if len(idx) == 0 && o == "" && r.Intn(3) == 0 {
			p = nil
		}
		ps = append(ps, p)
	}
	return pre, ps
}

func (w *world) subQuery(r *rand.Rand) []string {
	p := append([]string{}, w.paths()[r.Intn(len(w.paths()))]...)
	switch r.Intn(8) {
	case 0, 1:
		return nil
	case 2, 3:
		p = p[:r.Intn(len(p)+1)]
	case 4:
		p[r.Intn(len(p))] = "*"
	case 5:
		p = append(p[:r.Intn(len(p)+1)], "*")
	case 6:
		if r.Intn(4) == 0 {
			p = []string{"meta"}
		}
	case 7: // several wildcards
		if r.Intn(2) == 0 {
			for i := range p {
				if r.Intn(2) == 0 {
					p[i] = "*"
				}
			}
		}
	}
	return p
}

// ---- a case -----------------------------------------------------------

type subProg struct {
	cfg     config
	pre     []wstep   // before anything else
	writers [][]wstep // one per target (or the refresh)
	subs    []subSpec
	acl     bool
	nodup   bool
}

type wstep struct {
	op string
	t  string
	n  *pb.Notification
}

type subRun struct {
	x    *world
	srv  *subscribe.Server
	mu   sync.Mutex
	evs  []tr.Ev
	cur  map[uint64]*[]tr.Ev
	cid  map[uint64]int
	next int
	left int
	rmd  map[string]bool // targets removed at least once
	c    *vsync.Controller
}

func (r *subRun) log(e tr.Ev) {
	r.mu.Lock()
	r.evs = append(r.evs, e)
	r.mu.Unlock()
}

// sendNoti encodes a message without its duplicate count.
func (r *subRun) sendNoti(n *pb.Notification) tr.Ev {
	c := proto.Clone(n).(*pb.Notification)
	for _, u := range c.GetUpdate() {
		u.Duplicates = 0
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.x.noti(c)
}

func (r *subRun) do(s wstep) {
	r.mu.Lock()
	r.next++
	id := r.next
	feed := []tr.Ev{}
	g := vsync.GoID()
	r.cur[g], r.cid[g] = &feed, id
	r.mu.Unlock()
	e := tr.Ev{"e": "call", "c": id, "op": s.op, "t": s.t}
	r.log(e)
	switch s.op {
	case "upd":
		r.x.c.GnmiUpdate(s.n)
	case "rst":
		r.x.c.Reset(s.t)
	case "rm":
		r.mu.Lock()
		r.rmd[s.t] = true
		r.mu.Unlock()
		r.x.c.Remove(s.t)
	case "add":
		if !r.x.c.HasTarget(s.t) {
			r.x.c.Add(s.t)
		}
	case "sync":
		r.x.c.Sync(s.t)
	case "conn":
		r.x.c.Connect(s.t)
	case "meta":
		r.x.c.UpdateMetadata()
	case "size":
		r.x.c.UpdateSize()
	}
	r.mu.Lock()
	delete(r.cur, g)
	delete(r.cid, g)
	r.mu.Unlock()
	e["feed"] = feed
	r.log(tr.Ev{"e": "ret", "c": id})
}

func (r *subRun) onFeed(l *ctree.Leaf) {
	n, ok := l.Value().(*pb.Notification)
	if ok {
		g := vsync.GoID()
		r.mu.Lock()
		e := r.x.noti(n)
		if f := r.cur[g]; f != nil {
			*f = append(*f, e)
		}
		id := r.cid[g]
		r.evs = append(r.evs, tr.Ev{"e": "feed", "c": id, "n": e})
		r.mu.Unlock()
	}
	vsync.Yield("feed", nil)
	r.srv.Update(l)
}

func codeOf(err error) string {
	if err == nil {
		return "OK"
	}
	if s, ok := status.FromError(err); ok {
		return s.Code().String()
	}
	return "error"
}

// runSubs executes a program under a schedule.
func runSubs(t *testing.T, p func() subProg, pick sched.Picker) (hdr tr.Ev, evs []tr.Ev) {
	synctest.Test(t, func(t *testing.T) {
		pr := p()
		x := newWorld(pr.cfg)
		hdr = x.header()
		var opts []subscribe.Option
		if pr.acl {
			opts = append(opts, subscribe.WithACL(fakeACL{}))
		}
		if pr.nodup {
			opts = append(opts, subscribe.WithoutDupReport())
		}
		srv, err := subscribe.NewServer(x.c, opts...)
		if err != nil {
			panic(err)
		}
		r := &subRun{x: x, srv: srv, cur: map[uint64]*[]tr.Ev{}, cid: map[uint64]int{}, rmd: map[string]bool{}}
		x.c.SetClient(r.onFeed)
		for _, s := range pr.pre {
			r.do(s)
		}
		c := vsync.NewController()
		r.c = c
		vsync.Install(c)
		defer vsync.Install(nil)
		start := func(f func()) {
			r.left++
			go func() {
				vsync.Yield("start", nil)
				defer func() {
					if v := recover(); v != nil {
						r.log(tr.Ev{"e": "panic", "msg": fmt.Sprint(v)})
					}
					r.mu.Lock()
					r.left--
					r.mu.Unlock()
					c.Kick()
				}()
				f()
			}()
		}
		for _, w := range pr.writers {
			start(func() {
				for _, s := range w {
					r.do(s)
					vsync.Yield("between", nil)
				}
			})
		}
		var streams []*fakes.SubServer
		for i, sp := range pr.subs {
			id := i + 1
			ctx := context.Background()
			if sp.acl == "on" {
				ctx = context.WithValue(ctx, aclKey{}, sp.allow)
			}
			polls := sp.polls
			var s *fakes.SubServer
			s = fakes.NewSubServer(ctx, func(m *pb.SubscribeResponse) error {
				if m.GetUpdate() != nil {
					r.log(tr.Ev{"e": "send", "id": id, "sync": false, "n": r.sendNoti(m.GetUpdate())})
				} else {
					r.log(tr.Ev{"e": "send", "id": id, "sync": true, "val": m.GetSyncResponse()})
					if sp.mode == pb.SubscriptionList_POLL && polls > 0 {
						polls--
						go func() {
							vsync.Yield("client", nil)
							r.log(tr.Ev{"e": "poll", "id": id})
							s.Request(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}})
						}()
					}
				}
				vsync.Yield("send", nil)
				return nil
			})
			streams = append(streams, s)
			s.Request(sp.request())
			go func() {
				vsync.Yield("sub", nil)
				defer func() {
					if v := recover(); v != nil {
						r.log(tr.Ev{"e": "panic", "msg": fmt.Sprint(v)})
					}
				}()
				r.log(sp.event(id))
				err := srv.Subscribe(s)
				r.mu.Lock()
				e := tr.Ev{"e": "end", "id": id, "code": codeOf(err), "ended": r.rmd[sp.pre.GetTarget()]}
				r.evs = append(r.evs, e)
				r.mu.Unlock()
			}()
		}
		if !sched.Run(c, pick, func() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.left == 0 }, time.Second, 60000) {
			r.mu.Lock()
			evs = append(r.evs, tr.Ev{"e": "stuck"})
			r.mu.Unlock()
			for _, e := range evs {
				if e["e"] == "call" && e["feed"] == nil {
					e["feed"] = []tr.Ev{}
				}
			}
			onStuck(evs)
		}
		vsync.Install(nil)
		obs := tr.Ev{}
		for _, tg := range pr.cfg.targets {
			obs[tg] = x.leaves(tg)
		}
		r.log(tr.Ev{"e": "final", "obs": obs})
		evs = r.evs
		r.mu.Lock()
		r.evs = nil
		r.mu.Unlock()
		for _, s := range streams {
			s.Stop()
		}
		synctest.Wait()
	})
	return
}

// ---- random programs --------------------------------------------------

var subTargets = [][]string{{"t1", "t2"}, {"t1", "a"}, {"t1", "oc"}, {"t1"}}

// alike are paths that look the same once their elements are joined.
var alike = [][][]string{
	{{"a", "b"}, {"a/b"}}, {{"a", "b", "c"}, {"a/b", "c"}}, {{"a/b", "c"}, {"a", "b/c"}, {"a/b/c"}}, {{"a", "b/c"}, {"a", "b", "c"}}, {{"a", "", "b"}, {"a/", "b"}}, {{"a b"}, {"a", "b"}}, {{"ab"}, {"a", "b"}}, {{"a,b"}, {"a", "b"}},
}

// subProgram makes the program of a seed; kind is "stream", "once" or "acl".
func subProgram(seed int64, kind string, small bool) func() subProg {
	return func() subProg {
		rng := rand.New(rand.NewSource(seed))
		cfg := config{ed: rng.Intn(3) != 0, fam: rng.Intn(8), seed: seed, targets: subTargets[rng.Intn(len(subTargets))]}
		if kind == "acl" {
			cfg.targets = []string{"t1", "t2", "t3"}[:2+rng.Intn(2)]
		}
		b := &world{cfg: cfg, rng: rand.New(rand.NewSource(seed + 1)), pre: map[string]*pb.Path{}, ids: map[string]int{}}
		p := subProg{cfg: cfg, acl: kind == "acl", nodup: rng.Intn(4) == 0}
		at := 1
		npre := 8
		if small {
			npre = 3
		}
		for _, t := range cfg.targets {
			for i := rng.Intn(npre); i >= 0; i-- {
				p.pre = append(p.pre, wstep{op: "upd", t: t, n: b.build(t, b.someNoti(at))})
				at++
			}
			if rng.Intn(4) == 0 {
				p.pre = append(p.pre, wstep{op: "meta", t: t})
			}
		}
		// in some cases leaves whose paths differ in where elements end are there, and asked for together
		own := rand.New(rand.NewSource(seed + 2))
		var twins [][]string
		if cfg.seed%3 == 1 && own.Intn(2) == 0 {
			twins = alike[own.Intn(len(alike))]
			for _, t := range cfg.targets {
				for _, q := range twins {
					p.pre = append(p.pre, wstep{op: "upd", t: t, n: b.build(t, absNoti{ts: at, ups: []absUp{{p: q, v: own.Intn(3)}}})})
				}
				at++
			}
		}
		quiet := kind != "stream" && rng.Intn(4) == 0 // an unchanging cache
		if !quiet {
			for _, t := range cfg.targets {
				var w []wstep
				n := 2 + rng.Intn(5)
				if small {
					n = 1 + rng.Intn(3)
				}
				gone := false
				for i := 0; i < n; i++ {
					switch k := rng.Intn(24); {
					case gone && k < 12:
						w = append(w, wstep{op: "add", t: t})
						gone = false
					case k == 0:
						w = append(w, wstep{op: "rst", t: t})
					case k == 1:
						w = append(w, wstep{op: "sync", t: t})
					case k == 2:
						w = append(w, wstep{op: "conn", t: t})
					case k == 3 && (kind != "stream" || t == cfg.targets[len(cfg.targets)-1]) && !small:
						w = append(w, wstep{op: "rm", t: t})
						gone = true
					default:
						when := at
						if rng.Intn(6) == 0 {
							when -= rng.Intn(3)
						}
						w = append(w, wstep{op: "upd", t: t, n: b.build(t, b.someNoti(when))})
						at++
					}
				}
				p.writers = append(p.writers, w)
				if small {
					break
				}
			}
			if rng.Intn(4) == 0 && !small {
				p.writers = append(p.writers, []wstep{{op: []string{"meta", "size"}[rng.Intn(2)]}, {op: "meta"}})
			}
		}
		ns := 1 + rng.Intn(3)
		if small {
			ns = 1
		}
		for i := 0; i < ns; i++ {
			t := cfg.targets[rng.Intn(len(cfg.targets))]
			if rng.Intn(3) == 0 {
				t = "*"
			}
			var qs [][]string
			k := 1 + rng.Intn(3)
			if rng.Intn(25) == 0 {
				k = 0
			}
			for ; k > 0; k-- {
				qs = append(qs, b.subQuery(rng))
			}
			if len(qs) > 1 && rng.Intn(3) == 0 { // overlapping
				qs[1] = append(append([]string{}, qs[0]...), qs[1]...)
			}
			if twins != nil && own.Intn(3) != 0 {
				qs = append([][]string{}, twins...)
				own.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
			}
			s := subSpec{acl: "off"}
			if rng.Intn(3) == 0 {
				s.extra = 1 + rng.Int63n(1<<40)
			}
			s.pre, s.paths = renderQuery(rng, t, qs)
			switch kind {
			case "stream":
				s.mode = pb.SubscriptionList_STREAM
				s.uo = rng.Intn(4) == 0
			case "once":
				s.mode = pb.SubscriptionList_ONCE
				if rng.Intn(2) == 0 {
					s.mode = pb.SubscriptionList_POLL
					s.polls = rng.Intn(3)
					if rng.Intn(5) == 0 {
						s.polls += 2 + rng.Intn(4)
					}
				}
			default:
				s.mode = pb.SubscriptionList_Mode(rng.Intn(3))
				s.uo = s.mode == pb.SubscriptionList_STREAM && rng.Intn(4) == 0
				s.polls = rng.Intn(2)
				if t != "*" && rng.Intn(3) == 0 {
					t = "*"
					s.pre.Target = t
				}
				s.acl = "on"
				for _, tg := range cfg.targets {
					if rng.Intn(2) == 0 {
						s.allow = append(s.allow, tg)
					}
				}
				if rng.Intn(10) == 0 {
					s.acl = "broken"
				}
			}
			p.subs = append(p.subs, s)
		}
		return p
	}
}

// TestSubs explores schedules of random programs.
func TestSubs(t *testing.T) {
	kind := os.Getenv("VERIF_MODE")
	w := tr.New(kind, 6)
	defer w.Close()
	onStuck = func(evs []tr.Ev) {
		w.CaseCfg("stuck", tr.Ev{}, evs)
		w.Close()
		os.Exit(0)
	}
	n := envInt("VERIF_CASES", tr.N(300, 5000))
	scheds := 0
	for i := 0; i < n; i++ {
		seed := tr.Seed()*9_000_011 + int64(i)
		small := i%3 == 0
		p := subProgram(seed, kind, small)
		for k := 0; k < 3; k++ {
			r := rand.New(rand.NewSource(seed*17 + int64(k)))
			var pick sched.Picker
			switch (i + k) % 4 {
			case 0:
				pick = sched.Random{R: r}
			case 1:
				pick = &sched.Sticky{R: r, N: 8}
			default:
				pick = sched.NewPCT(r, []int{120, 500}[i%2], 1+r.Intn(4))
			}
			hdr, evs := runSubs(t, p, pick)
			w.CaseCfg(fmt.Sprintf("%s seed %d schedule %d", kind, seed, k), hdr, evs)
			scheds++
		}
	}
	tr.Stats(kind, tr.Ev{"programs": n, "schedules": scheds, "events": w.Events})
}

// TestSubsDFS explores small programs systematically.
func TestSubsDFS(t *testing.T) {
	kind := os.Getenv("VERIF_MODE")
	w := tr.New(kind+"dfs", 6)
	defer w.Close()
	onStuck = func(evs []tr.Ev) {
		w.CaseCfg("stuck", tr.Ev{}, evs)
		w.Close()
		os.Exit(0)
	}
	n := envInt("VERIF_CASES", tr.N(12, 60))
	max := tr.N(60, 1500)
	scheds, full := 0, 0
	for i := 0; i < n; i++ {
		seed := tr.Seed()*8_000_009 + int64(i)
		p := subProgram(seed, kind, true)
		d := &sched.DFS{Bound: 1}
		for k := 0; k < max; k++ {
			d.Reset()
			hdr, evs := runSubs(t, p, d)
			w.CaseCfg(fmt.Sprintf("%s seed %d dfs %d", kind, seed, k), hdr, evs)
			scheds++
			if !d.Next() {
				full++
				break
			}
		}
	}
	tr.Stats(kind+"dfs", tr.Ev{"programs": n, "schedules": scheds, "exhausted": full, "events": w.Events})
}
