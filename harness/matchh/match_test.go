// Package matchh records traces of the streaming filter.
package matchh

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"weak"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/match"
	gpb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"verif/harness/fakes"
	"verif/harness/gp"
	"verif/harness/sched"
	"verif/harness/tr"
	"verif/harness/vsync"
)

type client struct {
	id  int
	got *[]int
}

func (c *client) Update(any) { *c.got = append(*c.got, c.id) }

type run struct {
	m    *match.Match
	cl   map[int]*client
	rm   map[int]func()
	evs  []tr.Ev
	got  []int
	n    int
	dead bool
}

func newRun() *run {
	return &run{m: match.New(), cl: map[int]*client{}, rm: map[int]func(){}}
}

func (r *run) client(c int) *client {
	if r.cl[c] == nil {
		r.cl[c] = &client{c, &r.got}
	}
	return r.cl[c]
}

func (r *run) guard(f func()) {
	if r.dead {
		return
	}
	defer func() {
		if x := recover(); x != nil {
			r.evs = append(r.evs, tr.Ev{"e": "panic", "msg": fmt.Sprint(x)})
			r.dead = true
		}
	}()
	f()
}

// add registers; the caller's slice is clobbered afterwards only by itself.
func (r *run) add(c int, q []string) int {
	r.n++
	h := r.n
	r.guard(func() {
		r.rm[h] = r.m.AddQuery(q, r.client(c))
		r.evs = append(r.evs, tr.Ev{"e": "add", "h": h, "c": c, "q": q})
	})
	return h
}

func (r *run) remove(h int) {
	r.guard(func() {
		r.rm[h]()
		r.evs = append(r.evs, tr.Ev{"e": "rm", "h": h})
	})
}

func (r *run) take() []int {
	g := append([]int{}, r.got...)
	r.got = nil
	return g
}

func (r *run) upd(p []string) {
	r.guard(func() {
		r.m.Update("n", p)
		r.evs = append(r.evs, tr.Ev{"e": "upd", "p": p, "r": r.take()})
	})
}

func (r *run) once(ps [][]string) {
	r.guard(func() {
		seen := map[match.Client]struct{}{}
		for _, p := range ps {
			r.m.UpdateOnce("n", p, seen)
		}
		r.evs = append(r.evs, tr.Ev{"e": "once", "ps": ps, "r": r.take()})
	})
}

func (r *run) noti(n *gpb.Notification, pre []string) {
	r.guard(func() {
		subscribe.UpdateNotification(r.m, n, n, append(make([]string, 0, len(pre)+rand.Intn(3)), pre...))
		r.evs = append(r.evs, tr.Ev{"e": "noti", "n": gp.Noti(n, func(int64) int { return 0 }), "pre": pre, "r": r.take()})
	})
}

var elems = []string{"a", "b", "c", "", "d/e"}

func rpath(r *rand.Rand, n int, glob int) []string {
	p := make([]string, r.Intn(n+1))
	for i := range p {
		p[i] = elems[r.Intn(2+r.Intn(len(elems)-1))]
		if glob > 0 && r.Intn(glob) == 0 {
			p[i] = "*"
		}
	}
	return p
}

type histOp struct {
	Op string   `json:"op"`
	C  int      `json:"c"`
	Q  []string `json:"q"`
}

// TestReplay replays TLC's histories and probes the resulting filter.
func TestReplay(t *testing.T) {
	f, err := os.Open(os.Getenv("VERIF_HIST"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	w := tr.New("replay", 4)
	defer w.Close()
	r := rand.New(rand.NewSource(tr.Seed()))
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var ops []histOp
		if err := json.Unmarshal(sc.Bytes(), &ops); err != nil {
			t.Fatal(err)
		}
		x := newRun()
		hs := map[string]int{}
		var d []string
		for _, o := range ops {
			if o.Q == nil {
				o.Q = []string{}
			}
			k := fmt.Sprint(o.C, o.Q)
			d = append(d, o.Op+k)
			if o.Op == "add" {
				hs[k] = x.add(o.C, o.Q)
			} else {
				x.remove(hs[k])
				if r.Intn(3) == 0 {
					x.remove(hs[k])
				}
			}
		}
		for i := 0; i < 8; i++ {
			x.upd(rpath3(r, 3))
		}
		x.once([][]string{rpath3(r, 2), rpath3(r, 2)})
		w.Case("tlc "+strings.Join(d, " "), x.evs)
	}
	tr.Stats("replay", map[string]any{"cases": w.Cases, "events": w.Events})
}

func rpath3(r *rand.Rand, n int) []string {
	p := make([]string, r.Intn(n+1))
	for i := range p {
		p[i] = []string{"a", "b", "*"}[r.Intn(3)]
	}
	return p
}

func toPath(r *rand.Rand, p []string) *gpb.Path {
	if r.Intn(6) == 0 {
		return &gpb.Path{Element: p}
	}
	q := &gpb.Path{}
	for i := 0; i < len(p); i++ {
		e := &gpb.PathElem{Name: p[i]}
		n := r.Intn(3)
		if i+n < len(p) && n > 0 && r.Intn(3) == 0 {
			ks := gp.KeyNames()
			s := map[int]bool{}
			for len(s) < n {
				s[r.Intn(len(ks))] = true
			}
			var idx []int
			for k := range s {
				idx = append(idx, k)
			}
			sort.Ints(idx)
			e.Key = map[string]string{}
			for _, k := range idx {
				i++
				e.Key[ks[k]] = p[i]
			}
		}
		q.Elem = append(q.Elem, e)
	}
	return q
}

// TestRandom runs random registrations, removals and notifications.
func TestRandom(t *testing.T) {
	r := rand.New(rand.NewSource(tr.Seed()*31 + 5))
	w := tr.New("random", 4)
	defer w.Close()
	for c := 0; c < tr.N(400, 5000); c++ {
		x := newRun()
		live := map[int]string{}
		used := map[string]bool{}
		ml := 1 + r.Intn(5)
		var qs [][]string
		like := func() []string { // a path related to a registered query
			if len(qs) == 0 || r.Intn(4) == 0 {
				return rpath(r, ml+1, 6)
			}
			p := append([]string{}, qs[r.Intn(len(qs))]...)
			for i := range p {
				if p[i] == "*" && r.Intn(4) > 0 || r.Intn(8) == 0 {
					p[i] = elems[r.Intn(len(elems))]
				}
			}
			switch r.Intn(4) {
			case 0:
				p = p[:r.Intn(len(p)+1)]
			case 1:
				p = append(p, rpath(r, 2, 6)...)
			}
			return p
		}
		for i, k := 0, 10+r.Intn(30); i < k && !x.dead; i++ {
			switch y := r.Intn(10); {
			case y < 4:
				q := rpath(r, ml, 4)
				if len(qs) > 0 && r.Intn(3) == 0 {
					q = append([]string{}, qs[r.Intn(len(qs))]...)
				}
				cl := r.Intn(5)
				k := fmt.Sprint(cl, q)
				if used[k] {
					continue
				}
				used[k] = true
				qs = append(qs, q)
				live[x.add(cl, q)] = k
			case y < 6:
				for h, k := range live {
					x.remove(h)
					if r.Intn(4) == 0 {
						x.remove(h)
					}
					delete(live, h)
					delete(used, k)
					break
				}
			case y < 7:
				x.upd(like())
			case y < 8:
				ps := [][]string{}
				for j := 0; j <= r.Intn(3); j++ {
					ps = append(ps, like())
				}
				x.once(ps)
			default:
				pre := like()
				pre = pre[:r.Intn(len(pre)+1)]
				n := &gpb.Notification{}
				cut := func(p []string) []string {
					if len(p) >= len(pre) {
						return p[len(pre):]
					}
					return p
				}
				for j := 0; j < r.Intn(3); j++ {
					n.Update = append(n.Update, &gpb.Update{Path: toPath(r, cut(like()))})
				}
				for j := 0; j < r.Intn(3); j++ {
					n.Delete = append(n.Delete, toPath(r, cut(like())))
				}
				x.noti(n, pre)
			}
		}
		w.Case(fmt.Sprintf("random %d", c), x.evs)
	}
	tr.Stats("random", map[string]any{"cases": w.Cases, "events": w.Events})
}

// ---- inside the server ----------------------------------------------------

type rpcACL struct{ pad [64]byte }

func (*rpcACL) Check(string) bool { return true }

type acl struct{ last weak.Pointer[rpcACL] }

func (a *acl) Check(string, string) bool { return true }
func (a *acl) NewRPCACL(context.Context) (subscribe.RPCACL, error) {
	p := &rpcACL{}
	a.last = weak.Make(p)
	return p, nil
}

type subscriber struct {
	id   int
	s    *fakes.SubServer
	acl  weak.Pointer[rpcACL]
	done chan error
	req  *gpb.SubscribeRequest
	qs   [][]string

	mu    sync.Mutex
	times map[int64]int
	snap  [][]string
	sync  int
}

// TestServer drives Subscribe streams and notifications.
func TestServer(t *testing.T) {
	r := rand.New(rand.NewSource(tr.Seed()*131 + 7))
	w := tr.New("server", 4)
	defer w.Close()
	for c := 0; c < tr.N(250, 3000); c++ {
		evs := serverCase(t, r)
		w.Case(fmt.Sprintf("server %d", c), evs)
	}
	tr.Stats("server", map[string]any{"cases": w.Cases, "events": w.Events})
}

func serverCase(t *testing.T, r *rand.Rand) (evs []tr.Ev) {
	targets := []string{"t1", "t2"}
	origins := []string{"", "", "oc", "b"}
	ns := []string{"a", "b", "c", "d"}
	rp := func(n, glob int) []string {
		p := make([]string, r.Intn(n+1))
		for i := range p {
			p[i] = ns[r.Intn(len(ns))]
			if glob > 0 && r.Intn(glob) == 0 {
				p[i] = "*"
			}
		}
		return p
	}
	synctest.Test(t, func(t *testing.T) {
		c := cache.New(targets)
		a := &acl{}
		srv, err := subscribe.NewServer(c, subscribe.WithACL(a))
		if err != nil {
			t.Fatal(err)
		}
		var subs []*subscriber
		id := 0
		start := func(updatesOnly bool) {
			id++
			pre := toPath(r, rp(2, 6))
			pre.Target = []string{"t1", "t2", "*", "t1"}[r.Intn(4)]
			pre.Origin = origins[r.Intn(len(origins))]
			n := 1 + r.Intn(4)
			if r.Intn(5) == 0 {
				n = 6
			}
			sl := &gpb.SubscriptionList{Prefix: pre, Mode: gpb.SubscriptionList_STREAM, UpdatesOnly: updatesOnly}
			ps := []tr.Ev{}
			for i := 0; i < n; i++ {
				var p *gpb.Path
				if r.Intn(12) > 0 {
					p = toPath(r, rp(3, 4))
					if pre.Origin == "" && len(pre.Elem)+len(pre.Element) == 0 {
						p.Origin = origins[r.Intn(len(origins))]
					}
				}
				sl.Subscription = append(sl.Subscription, &gpb.Subscription{Path: p})
				ps = append(ps, gp.Path(p))
			}
			s := &subscriber{id: id, times: map[int64]int{}, done: make(chan error, 1)}
			s.s = fakes.NewSubServer(context.Background(), func(m *gpb.SubscribeResponse) error {
				s.mu.Lock()
				defer s.mu.Unlock()
				switch m.Response.(type) {
				case *gpb.SubscribeResponse_SyncResponse:
					s.sync++
				case *gpb.SubscribeResponse_Update:
					n := m.GetUpdate()
					k := 1
					if len(n.Update) > 0 {
						k += int(n.Update[0].Duplicates)
					}
					s.times[n.Timestamp] += k
					if s.sync == 0 {
						s.snap = append(s.snap, leafIndex(n))
					}
				}
				return nil
			})
			s.s.Request(&gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: sl}})
			go func() { s.done <- srv.Subscribe(s.s) }()
			synctest.Wait()
			s.acl = a.last
			evs = append(evs, tr.Ev{"e": "sub", "c": s.id, "pre": gp.Path(pre), "subs": ps})
			if !updatesOnly {
				s.mu.Lock()
				sn := s.snap
				if sn == nil {
					sn = [][]string{}
				}
				evs = append(evs, tr.Ev{"e": "snap", "c": s.id, "r": sn})
				s.mu.Unlock()
			}
			subs = append(subs, s)
		}
		stop := func(i int) {
			s := subs[i]
			subs = append(subs[:i:i], subs[i+1:]...)
			s.s.Stop()
			<-s.done
			synctest.Wait()
			wp := s.acl
			id := s.id
			s = nil
			left := true
			for k := 0; k < 4 && left; k++ {
				runtime.GC()
				left = wp.Value() != nil
			}
			evs = append(evs, tr.Ev{"e": "unsub", "c": id, "left": left})
		}
		ts := int64(1000)
		send := func(n *gpb.Notification, viaCache bool) {
			ts++
			n.Timestamp = ts
			var r [][2]int
			if viaCache {
				if err := c.GnmiUpdate(n); err != nil {
					return
				}
			} else {
				srv.Update(ctree.DetachedLeaf(n))
			}
			synctest.Wait()
			for _, s := range subs {
				s.mu.Lock()
				if k := s.times[ts]; k > 0 {
					r = append(r, [2]int{s.id, k})
				}
				s.mu.Unlock()
			}
			if r == nil {
				r = [][2]int{}
			}
			evs = append(evs, tr.Ev{"e": "srv", "n": gp.Noti(n, func(int64) int { return 0 }), "r": r})
		}
		noti := func(del bool) *gpb.Notification {
			pre := toPath(r, rp(2, 0))
			pre.Target = targets[r.Intn(2)]
			pre.Origin = origins[r.Intn(len(origins))]
			n := &gpb.Notification{Prefix: pre}
			if del {
				for j := 0; j < r.Intn(3); j++ {
					n.Delete = append(n.Delete, toPath(r, rp(3, 4)))
				}
			}
			k := 1
			if del {
				k = r.Intn(3)
			}
			for j := 0; j < k; j++ {
				p := rp(3, 0)
				if len(p) == 0 {
					p = []string{"a"}
				}
				n.Update = append(n.Update, &gpb.Update{Path: toPath(r, p), Val: gp.Int(ts)})
			}
			return n
		}
		// leaves for the snapshots
		for i := 0; i < r.Intn(10); i++ {
			ts++
			n := noti(false)
			n.Timestamp = ts
			c.GnmiUpdate(n)
		}
		c.SetClient(srv.Update)
		for i, k := 0, 6+r.Intn(14); i < k; i++ {
			switch x := r.Intn(12); {
			case x < 4:
				start(r.Intn(2) == 0)
			case x < 5 && len(subs) > 0:
				stop(r.Intn(len(subs)))
			case x < 7:
				send(noti(false), true)
			default:
				send(noti(true), false)
			}
		}
		for len(subs) > 0 {
			stop(0)
		}
		send(noti(true), false)
		synctest.Wait()
		time.Sleep(2 * time.Minute)
	})
	return
}

// leafIndex is where a single-leaf notification is stored.
func leafIndex(n *gpb.Notification) []string {
	var r []string
	add := func(p *gpb.Path) {
		for _, e := range p.GetElem() {
			r = append(r, e.Name)
			var ks []string
			for k := range e.Key {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				r = append(r, e.Key[k])
			}
		}
		if len(p.GetElem()) == 0 {
			r = append(r, p.GetElement()...)
		}
	}
	r = append(r, n.Prefix.Target)
	if n.Prefix.Origin != "" {
		r = append(r, n.Prefix.Origin)
	}
	add(n.Prefix)
	if !n.Atomic && len(n.Update) > 0 {
		add(n.Update[0].Path)
	}
	return r
}

// ---- concurrent -----------------------------------------------------------

type crec struct {
	mu  sync.Mutex
	evs []tr.Ev
}

func (c *crec) ev(e tr.Ev) { c.mu.Lock(); c.evs = append(c.evs, e); c.mu.Unlock() }

type cclient struct {
	id int
	c  *crec
}

func (c *cclient) Update(n any) {
	c.c.ev(tr.Ev{"e": "offer", "u": n, "c": c.id})
	vsync.Yield("offer", nil)
}

type cop struct {
	op string
	c  int
	q  []string
	ps [][]string
	h  int
}

func conc(t *testing.T, setup []cop, progs [][]cop, pick sched.Picker) (evs []tr.Ev, stuck bool) {
	synctest.Test(t, func(t *testing.T) {
		rec := &crec{}
		m := match.New()
		cls := map[int]*cclient{}
		for i := 0; i < 4; i++ {
			cls[i] = &cclient{i, rec}
		}
		var mu sync.Mutex
		rms := map[int]func(){}
		u := 0
		do := func(o cop) {
			switch o.op {
			case "add":
				rec.ev(tr.Ev{"e": "addinv", "h": o.h, "c": o.c, "q": o.q})
				rm := m.AddQuery(o.q, cls[o.c])
				rec.ev(tr.Ev{"e": "addret", "h": o.h})
				mu.Lock()
				rms[o.h] = rm
				mu.Unlock()
			case "rm":
				mu.Lock()
				rm := rms[o.h]
				mu.Unlock()
				if rm == nil {
					return
				}
				rec.ev(tr.Ev{"e": "rminv", "h": o.h})
				rm()
				rec.ev(tr.Ev{"e": "rmret", "h": o.h})
			case "upd":
				mu.Lock()
				u++
				id := u
				mu.Unlock()
				rec.ev(tr.Ev{"e": "updinv", "u": id, "ps": o.ps})
				seen := map[match.Client]struct{}{}
				for _, p := range o.ps {
					m.UpdateOnce(id, p, seen)
				}
				rec.ev(tr.Ev{"e": "updret", "u": id})
			}
		}
		for _, o := range setup {
			do(o)
		}
		c := vsync.NewController()
		vsync.Install(c)
		defer vsync.Install(nil)
		left := len(progs)
		for _, p := range progs {
			go func() {
				vsync.Yield("start", nil)
				defer func() {
					if x := recover(); x != nil {
						rec.ev(tr.Ev{"e": "panic", "msg": fmt.Sprint(x)})
					}
					mu.Lock()
					left--
					mu.Unlock()
					c.Kick()
				}()
				for _, o := range p {
					do(o)
				}
			}()
		}
		if !sched.Run(c, pick, func() bool { mu.Lock(); defer mu.Unlock(); return left == 0 }, time.Second, 10000) {
			rec.ev(tr.Ev{"e": "stuck"})
			stuck = true
			evs = append(evs, rec.evs...)
			onStuck(evs)
		}
		evs = rec.evs
	})
	return
}

var onStuck func([]tr.Ev)

// TestConcurrent explores schedules of registrations, removals and updates.
func TestConcurrent(t *testing.T) {
	r := rand.New(rand.NewSource(tr.Seed()*17 + 3))
	w := tr.New("conc", 4)
	defer w.Close()
	onStuck = func(evs []tr.Ev) {
		w.Case("stuck", evs)
		w.Close()
		os.Exit(0)
	}
	scheds := 0
	for c := 0; c < tr.N(60, 600); c++ {
		h := 0
		nh := func() int { h++; return h }
		var setup []cop
		seen := map[string]bool{}
		mk := func() (cop, bool) {
			o := cop{op: "add", c: r.Intn(4), q: rpath3(r, 2), h: nh()}
			k := fmt.Sprint(o.c, o.q)
			if seen[k] {
				return o, false
			}
			seen[k] = true
			return o, true
		}
		for i := 0; i < 3; i++ {
			if o, ok := mk(); ok {
				setup = append(setup, o)
			}
		}
		up := func() cop {
			o := cop{op: "upd"}
			for i := 0; i <= r.Intn(2); i++ {
				o.ps = append(o.ps, rpath3(r, 2))
			}
			return o
		}
		progs := [][]cop{{up()}, {}}
		if r.Intn(2) == 0 {
			progs[0] = append(progs[0], up())
		}
		for i := 0; i < 1+r.Intn(2); i++ {
			if r.Intn(2) == 0 && len(setup) > 0 {
				progs[1] = append(progs[1], cop{op: "rm", h: setup[r.Intn(len(setup))].h})
			} else if o, ok := mk(); ok {
				progs[1] = append(progs[1], o)
				if r.Intn(2) == 0 {
					progs[1] = append(progs[1], cop{op: "rm", h: o.h})
				}
			}
		}
		if r.Intn(3) == 0 && len(setup) > 0 {
			progs = append(progs, []cop{{op: "rm", h: setup[0].h}, up()})
		}
		d := &sched.DFS{Bound: 2}
		for k := 0; k < tr.N(40, 400); k++ {
			d.Reset()
			evs, _ := conc(t, setup, progs, d)
			w.Case(fmt.Sprintf("conc %d schedule %d", c, k), evs)
			scheds++
			if !d.Next() {
				break
			}
		}
	}
	tr.Stats("conc", map[string]any{"programs": tr.N(60, 600), "schedules": scheds, "events": w.Events})
}
