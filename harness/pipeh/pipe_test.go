package pipeh

import (
	"bufio"
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	cpb "github.com/openconfig/gnmi/proto/collector"
	tpb "github.com/openconfig/gnmi/proto/target"
	fgnmi "github.com/openconfig/gnmi/testing/fake/gnmi"
	fpb "github.com/openconfig/gnmi/testing/fake/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/protobuf/proto"
	"verif/harness/gp"
	"verif/harness/tr"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

// step is an operation of a history: update leaf L to its V-th value and
// delete leaves D before, in one notification; end the session; add an
// observer; come to rest.
type step struct {
	Op string
	D  []int
	L  int
	V  int
	// further updates (leaf, value) and deletions of the notification
	more [][2]int
	dels []at
	grp  bool
}

// target plays a history.
type target struct {
	name string
	w    *world
	in   chan *session
	want *gpb.SubscribeRequest
	rnd  *rand.Rand
	ls   []leaf
	kind []int
	hist []step
	desc string

	evs     []ev
	sess    *session
	ts      int64
	marks   int
	settled map[observer]bool
	synced  bool
	cur     state // the leaves of the session
	obs     []observer
	qs      map[observer][]query
	dead    bool
	star    observer // sees everything of all targets
	base    observer // sees the marks of all targets
}

type world struct {
	addr string // of the collector
	cert string
	key  string
	coll *proc
	sem  chan struct{}
	ctl  cpb.CollectorClient
}

var mark = leaf{el: []*gpb.PathElem{{Name: "zz"}, {Name: "mark"}}}

func (x *target) add(e ev) { x.evs = append(x.evs, e) }
func (x *target) fail(e, msg string) {
	if !x.dead {
		x.dead = true
		failures.Add(1)
		if c := crash(x.w.coll.err.String()); c != "" {
			msg = "collector: " + c
			e = "exit"
		}
		x.add(ev{"e": e, "msg": msg})
	}
}

func digest(m proto.Message) string {
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	return fmt.Sprintf("%x", b)
}

func (x *target) session() bool {
	select {
	case x.sess = <-x.in:
	case <-x.w.coll.done:
		x.fail("exit", "the collector ended: "+tail(x.w.coll.err.String()))
		return false
	case <-time.After(patience()):
		x.fail("stuck", "no session")
		return false
	}
	x.synced, x.cur = false, state{}
	x.add(ev{"e": "sess", "got": digest(x.sess.req), "want": digest(x.want)})
	// The device may have a clock of its own.
	x.ts = time.Now().UnixNano() - int64(x.rnd.Intn(3))*int64(time.Hour)
	if x.rnd.Intn(6) == 0 {
		x.ts = int64(1 + x.rnd.Intn(1000))
	}
	return true
}

func (x *target) send(r *gpb.SubscribeResponse) bool {
	if err := x.sess.stream.Send(r); err != nil {
		x.fail("stuck", "the collector ended the session: "+err.Error())
		return false
	}
	return true
}

// noti sends a notification.
func (x *target) noti(ups []at, vals []val, dels []at, atomic bool, maxPre int) bool {
	pre, ps := encode(x.rnd, x.name, append(append([]at{}, ups...), dels...), maxPre)
	x.ts += int64(1 + x.rnd.Intn(1000))
	n := &gpb.Notification{Timestamp: x.ts, Prefix: pre, Atomic: atomic}
	eu, ed := []ev{}, []ev{}
	for i, v := range vals {
		n.Update = append(n.Update, &gpb.Update{Path: ps[i], Val: v.tv})
		eu = append(eu, ev{"p": gp.Path(ps[i]), "v": v.ev()})
	}
	for _, p := range ps[len(ups):] {
		n.Delete = append(n.Delete, p)
		ed = append(ed, gp.Path(p))
	}
	for _, d := range dels {
		x.cur.del(append([]string{x.name}, leaf{origin: d.origin, el: d.el}.index()...))
	}
	x.has(ups)
	x.add(ev{"e": "noti", "n": ev{"pre": gp.Path(pre), "up": eu, "del": ed}})
	return x.send(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: n}})
}

func (x *target) has(ups []at) {
	for _, u := range ups {
		x.cur[key(append([]string{x.name}, leaf{origin: u.origin, el: u.el}.index()...))] = ""
	}
}

func (x *target) sync() bool {
	x.synced = true
	return x.send(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}})
}

func (x *target) path(i int) at { return at{x.ls[i].origin, x.ls[i].el} }
func (x *target) val(i, v int) val {
	// the same number is the same value
	return someValue(rand.New(rand.NewSource(int64(i*1000+v))), x.kind[i], v)
}

func (x *target) play(s step) bool {
	switch s.Op {
	case "up", "del":
		var ups, dels []at
		var vals []val
		if s.grp {
			// an atomic group as a whole
			var g []int
			for i, l := range x.ls {
				if l.group > 0 {
					g = append(g, i)
				}
			}
			l := x.ls[g[0]]
			if s.Op == "del" {
				return x.noti(nil, nil, []at{{l.origin, l.el[:l.group]}}, false, 0)
			}
			for _, i := range g {
				ups = append(ups, x.path(i))
				vals = append(vals, x.val(i, s.V+i))
			}
			return x.group(ups, vals, l)
		}
		add := func(i, v int) {
			for _, u := range ups {
				if gpEqual(u, x.path(i)) {
					return
				}
			}
			ups = append(ups, x.path(i))
			vals = append(vals, x.val(i, v))
		}
		if s.L > 0 {
			add(s.L-1, s.V)
		}
		for _, m := range s.more {
			add(m[0], m[1])
		}
		for _, d := range s.D {
			dels = append(dels, x.path(d-1))
		}
		dels = append(dels, s.dels...)
		maxPre := 100
		return x.noti(ups, vals, dels, false, maxPre)
	case "sync":
		return x.sync()
	case "drop":
		if x.rnd.Intn(2) == 0 {
			// on request of an operator
			ctx, cancel := context.WithTimeout(context.Background(), patience())
			_, err := x.w.ctl.Reconnect(ctx, &cpb.ReconnectRequest{Target: []string{x.name}})
			cancel()
			if err != nil {
				x.fail("stuck", "Reconnect: "+err.Error())
				return false
			}
			return x.session()
		}
		x.sess.drop()
		return x.session()
	case "join":
		x.join()
	case "rest":
		return x.rest()
	}
	return true
}

func gpEqual(a, b at) bool {
	if a.origin != b.origin || len(a.el) != len(b.el) {
		return false
	}
	for i := range a.el {
		if !sameElem(a.el[i], b.el[i]) {
			return false
		}
	}
	return true
}

// group sends an atomic group, the prefix of which is that of the group.
func (x *target) group(ups []at, vals []val, l leaf) bool {
	x.ts += int64(1 + x.rnd.Intn(1000))
	n := &gpb.Notification{Timestamp: x.ts, Atomic: true, Prefix: &gpb.Path{Target: pick(x.rnd, "", x.name), Origin: l.origin, Elem: l.el[:l.group]}}
	eu := []ev{}
	for i, v := range vals {
		p := &gpb.Path{Elem: ups[i].el[l.group:]}
		n.Update = append(n.Update, &gpb.Update{Path: p, Val: v.tv})
		eu = append(eu, ev{"p": gp.Path(p), "v": v.ev()})
	}
	x.has(ups)
	x.add(ev{"e": "noti", "n": ev{"pre": gp.Path(n.Prefix), "up": eu, "del": []ev{}}})
	return x.send(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: n}})
}

var showTypes = []string{"g", "group", "s", "single", "p", "proto", "sp", "shortproto"}

func (x *target) join() {
	qs := append(queries(x.rnd, x.ls), query{origin: "openconfig", el: mark.el})
	var o observer
	switch x.rnd.Intn(8) {
	case 0, 1:
		o = newLib(x.rnd, x.w.addr, x.name, qs, true)
	case 2:
		c, err := newCLI(x.rnd, x.w.addr, x.name, qs, "s", pick(x.rnd, showTypes...))
		if err != nil {
			x.fail("stuck", err.Error())
			return
		}
		o = c
	default:
		o = newLib(x.rnd, x.w.addr, x.name, qs, false)
	}
	x.obs = append(x.obs, o)
	x.qs[o] = qs
}

// marked says whether s has the last mark.
func (x *target) marked(s state, form string) bool {
	m := x.marker()
	return s[key(append([]string{x.name}, mark.index()...))] == map[string]string{"c": m.c, "s": m.s, "g": m.g}[form]
}

func (x *target) marker() val { return mk(gp.Int(int64(x.marks)), int64(x.marks)) }

func (x *target) view(o observer, qs []query, s state) {
	iq := [][]string{}
	for _, q := range qs {
		iq = append(iq, q.index())
	}
	x.add(ev{"e": "view", "how": o.how(), "f": o.form(), "q": iq, "lv": s.leaves(x.name)})
}

// synced1 says that the output of o, if it shows that, has the sync response.
func (x *target) synced1(o observer) bool {
	c, ok := o.(*cli)
	if !ok || c.form() != "c" {
		return true
	}
	out := c.p.out.String()
	return strings.Contains(out, "sync_response: true") || strings.Contains(out, "sync_response:true") || strings.Contains(out, "sync_response:  true")
}

// early says that o may not have had its initial snapshot yet, in which the
// mark need not come last.
func (x *target) early(o observer, s state, synced bool, since time.Time) bool {
	c, ok := o.(*cli)
	if !ok || c.form() == "g" {
		return false
	}
	if c.form() == "c" {
		return !synced
	}
	// nothing tells
	n := 0
	for k := range x.cur {
		for _, q := range x.qs[o] {
			if (state{k: ""}).matches(append([]string{x.name}, q.index()...)) {
				n++
				break
			}
		}
	}
	return len(s.leaves(x.name)) < n && time.Since(since) < patience()/3
}

// rest waits until everything sent has gone through, and looks.
func (x *target) rest() bool {
	if !x.synced && !x.sync() {
		return false
	}
	// An observer that is having its initial snapshot may see the mark before
	// an earlier change: the mark takes the place of its former value among
	// what has yet to be sent. Once it has seen one mark the next one does come
	// last.
	fresh := false
	for _, o := range x.observers() {
		fresh = fresh || !x.settled[o]
	}
	if fresh && (!x.mark() || !x.waitMarked(false)) {
		return false
	}
	return x.mark() && x.waitMarked(true)
}

func (x *target) mark() bool {
	x.marks++
	return x.noti([]at{{mark.origin, mark.el}}, []val{x.marker()}, nil, false, 1)
}

func (x *target) observers() []observer {
	// once base has the mark the collector has everything
	obs := append([]observer{x.base}, x.obs...)
	if x.star != nil {
		obs = append(obs, x.star)
	}
	return obs
}

// waitMarked waits until all observers see the last mark, and looks.
func (x *target) waitMarked(look bool) bool {
	if x.settled == nil {
		x.settled = map[observer]bool{}
	}
	for _, o := range x.observers() {
		x.settled[o] = true
	}
	obs := x.observers()
	for _, o := range obs {
		t0 := time.Now()
		for d := time.Millisecond; ; d = min(d*2, 100*time.Millisecond) {
			synced := x.synced1(o) // before looking: what comes after must not excuse what is not there yet
			s := o.state()
			if x.marked(s, o.form()) {
				// Reading is not atomic: what was read before the mark may be older than it.
				s = o.state()
			}
			if x.marked(s, o.form()) && !x.early(o, s, synced, t0) {
				switch {
				case o == x.base || !look:
				case o == x.star:
					x.view(o, []query{everything()}, s)
				default:
					x.view(o, x.qs[o], s)
				}
				break
			}
			if c, ok := o.(*cli); ok && c.p.ended() {
				if !x.marked(o.state(), o.form()) {
					x.fail("exit", o.how()+" ended: "+tail(c.p.out.String()+c.p.err.String()))
					return false
				}
				continue
			}
			if x.w.coll.ended() {
				x.fail("exit", "the collector ended: "+tail(x.w.coll.err.String()))
				return false
			}
			if time.Since(t0) > patience() {
				x.fail("stuck", fmt.Sprintf("%s never sees mark %d of %s, but %.300s", o.how(), x.marks, x.name, fmt.Sprint(s.leaves(x.name))))
				return false
			}
			time.Sleep(d)
		}
	}
	return true
}

// invoke runs the CLI to its end, at rest.
func (x *target) invoke(typ, show string) {
	x.w.sem <- struct{}{}
	defer func() { <-x.w.sem }()
	qs := append(queries(x.rnd, x.ls), query{origin: "openconfig", el: mark.el})
	c, err := newCLI(x.rnd, x.w.addr, x.name, qs, typ, show)
	if err != nil {
		x.fail("stuck", err.Error())
		return
	}
	defer c.close()
	if !c.p.wait(patience()) {
		x.fail("stuck", c.how()+" does not end: "+tail(c.p.out.String()))
		return
	}
	if e := crash(c.p.err.String()); e != "" {
		x.fail("exit", c.how()+": "+e)
		return
	}
	s := c.state()
	if c.form() == "g" && typ == "p" && len(blocks(c.p.out.String())) != 2 {
		s = state{"?" + tail(c.p.out.String()): ""}
	}
	if s == nil {
		s = state{"?" + tail(c.p.err.String()): ""}
	}
	for k, v := range s {
		if k[0] == '?' { // unreadable
			s = state{x.name + sep + k: v}
			break
		}
	}
	x.view(c, qs, s)
}

func (x *target) once() {
	c := newLibOnce(x)
	defer c.close()
	x.view(c, x.qs[c], c.state())
}

func newLibOnce(x *target) *lib {
	qs := append(queries(x.rnd, x.ls), query{origin: "openconfig", el: mark.el})
	l := newLib(x.rnd, x.w.addr, x.name, qs, true)
	l.name += " (first)"
	l.poll = false // its initial snapshot
	x.qs[l] = qs
	select {
	case <-l.ready:
	case <-time.After(patience()):
		x.fail("stuck", l.how()+" gets no snapshot")
	}
	return l
}

func (x *target) run() {
	defer func() {
		for _, o := range x.obs {
			o.close()
		}
		if x.sess != nil {
			x.sess.drop()
		}
	}()
	if !x.session() {
		return
	}
	for _, s := range x.hist {
		if !x.play(s) || x.dead {
			return
		}
	}
	if !x.rest() {
		return
	}
	x.final()
}

func (x *target) final() {
	for i := 0; i < 2 && !x.dead; i++ {
		x.invoke("o", pick(x.rnd, showTypes...))
	}
	switch x.rnd.Intn(4) {
	case 0:
		if !x.dead {
			x.invoke("p", pick(x.rnd, "g", "s"))
		}
	case 1:
		if !x.dead {
			x.once()
		}
	}
}

// ---- worlds ----------------------------------------------------------------

type result struct {
	mu    sync.Mutex
	w     *tr.W
	stats map[string]int
}

func (r *result) put(x *target) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.stats["targets"]++
	for _, e := range x.evs {
		k := fmt.Sprint(e["e"])
		r.stats[k]++
		if k == "view" {
			r.stats[fmt.Sprint(e["how"])]++
		}
	}
	r.w.CaseCfg(x.desc, ev{"me": x.name}, x.evs)
}

// play runs a collector with a target for each history.
func play(t *testing.T, seed int64, res *result, hs [][]step, descs []string, long bool) {
	rnd := rand.New(rand.NewSource(seed))
	dir, err := os.MkdirTemp(filepath.Join(tr.Dir(), "tmp"), "coll")
	if err != nil {
		t.Fatal(err)
	}
	cert, key := certs(t, dir)
	var hosts []*host
	for i := 0; i < 1+len(hs)/4; i++ {
		hosts = append(hosts, newHost(t, cert, key))
	}
	defer func() {
		for _, h := range hosts {
			h.srv.Stop()
		}
	}()
	cfg := &tpb.Configuration{Request: map[string]*gpb.SubscribeRequest{}, Target: map[string]*tpb.Target{}}
	for i := 0; i < 1+rnd.Intn(4); i++ {
		l := &gpb.SubscriptionList{Prefix: &gpb.Path{Origin: pick(rnd, "openconfig", "", "o2")}, Encoding: pick(rnd, gpb.Encoding_PROTO, gpb.Encoding_JSON)}
		for j := 0; j <= rnd.Intn(3); j++ {
			l.Subscription = append(l.Subscription, &gpb.Subscription{Path: &gpb.Path{Elem: []*gpb.PathElem{container(rnd)}}, Mode: pick(rnd, gpb.SubscriptionMode_ON_CHANGE, gpb.SubscriptionMode_SAMPLE), SampleInterval: uint64(rnd.Intn(3))})
		}
		if rnd.Intn(3) == 0 {
			l.Prefix.Target = "another"
		}
		cfg.Request[fmt.Sprintf("r%d", i)] = &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: l}}
	}
	w := &world{cert: cert, key: key, sem: make(chan struct{}, 8)}
	var xs []*target
	for i, h := range hs {
		name := fmt.Sprintf("%s%d", pick(rnd, "dev", "router-", "t.", "a b:c/"), i)
		at := hosts[rnd.Intn(len(hosts))]
		req := fmt.Sprintf("r%d", rnd.Intn(len(cfg.Request)))
		cfg.Target[name] = &tpb.Target{Addresses: []string{at.addr}, Request: req}
		if rnd.Intn(6) == 0 {
			cfg.Target[name].Addresses[0] += ";nexthop"
		}
		want := proto.Clone(cfg.Request[req]).(*gpb.SubscribeRequest)
		want.GetSubscribe().Prefix.Target = name
		x := &target{name: name, w: w, in: at.target(name), want: want, rnd: rand.New(rand.NewSource(seed*1000 + int64(i))), hist: h, desc: descs[i], qs: map[observer][]query{}}
		x.ls = schema(x.rnd, 2+x.rnd.Intn(3))
		if long {
			x.ls = withGroup(x.rnd, schema(x.rnd, 4+x.rnd.Intn(8)), 2+x.rnd.Intn(3))
			x.invent()
		}
		for range x.ls {
			x.kind = append(x.kind, x.rnd.Intn(10))
		}
		xs = append(xs, x)
	}
	var flags []string
	if rnd.Intn(2) == 0 {
		flags = append(flags, "-metadata_update_period", "50ms", "-size_update_period", "70ms")
	}
	w.coll, w.addr = collector(t, dir, cfg, cert, key, flags...)
	defer w.coll.kill()
	cc, err := grpc.NewClient(w.addr, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{InsecureSkipVerify: true})))
	if err != nil {
		t.Fatal(err)
	}
	defer cc.Close()
	w.ctl = cpb.NewCollectorClient(cc)
	star := newLib(rnd, w.addr, "*", []query{everything()}, false)
	defer star.close()
	base := newLib(rnd, w.addr, "*", []query{{origin: "openconfig", el: mark.el}}, false)
	defer base.close()
	var wg sync.WaitGroup
	for i, x := range xs {
		x.base = base
		if i%8 == 0 {
			x.star = star
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.run()
		}()
	}
	wg.Wait()
	if c := crash(w.coll.err.String()); c != "" {
		xs[0].fail("exit", "collector: "+c)
	}
	for _, x := range xs {
		res.put(x)
	}
}

// invent makes up a long history.
func (x *target) invent() {
	r := x.rnd
	g := -1
	for i, l := range x.ls {
		if l.group > 0 {
			g = i
			break
		}
	}
	plain := g
	someDel := func() at {
		l := x.ls[r.Intn(plain)]
		n := r.Intn(len(l.el) + 1)
		d := at{l.origin, nil}
		for i, e := range l.el[:n] {
			e = proto.Clone(e).(*gpb.PathElem)
			switch {
			case r.Intn(8) == 0 && len(e.Key) > 0:
				for k := range e.Key {
					e.Key[k] = "*"
				}
			case r.Intn(10) == 0:
				e.Name = "*"
			case i == n-1 && r.Intn(10) == 0 && len(e.Key) > 0:
				e.Key = nil // the whole list
			}
			d.el = append(d.el, e)
		}
		return d
	}
	drops := 0
	for i := 8 + r.Intn(30); i > 0; i-- {
		s := step{Op: "up"}
		switch k := r.Intn(40); {
		case k < 16:
			s.L, s.V = 1+r.Intn(plain), r.Intn(6)
			for r.Intn(3) == 0 {
				s.more = append(s.more, [2]int{r.Intn(plain), r.Intn(6)})
			}
			if r.Intn(5) == 0 {
				s.dels = append(s.dels, someDel())
			}
		case k < 19:
			// everything
			for j := 0; j < plain; j++ {
				s.more = append(s.more, [2]int{j, r.Intn(6)})
			}
		case k < 25:
			s.Op = "del"
			for ok := true; ok; ok = r.Intn(4) == 0 {
				s.dels = append(s.dels, someDel())
			}
		case k < 28:
			s.grp, s.V = true, r.Intn(6)
		case k < 29:
			s.Op, s.grp = "del", true
		case k < 31:
			s.Op = "sync"
		case k < 32 && drops < 2:
			s.Op = "drop"
			drops++
		case k < 35:
			s.Op = "rest"
		default:
			s.Op = "join"
			n := 0
			for _, h := range x.hist {
				if h.Op == "join" {
					n++
				}
			}
			if n > 3 {
				continue
			}
		}
		x.hist = append(x.hist, s)
	}
}

// ---- tests -----------------------------------------------------------------

func newResult(name string) *result {
	os.MkdirAll(filepath.Join(tr.Dir(), "tmp"), 0o755)
	return &result{w: tr.New(name, 4), stats: map[string]int{}}
}

func (r *result) done(name string) {
	r.w.Close()
	m := map[string]any{"events": r.w.Events}
	for k, v := range r.stats {
		m[k] = v
	}
	tr.Stats(name, m)
}

// parallel runs n worlds, some at a time.
func parallel(n, width int, f func(i int)) {
	sem := make(chan struct{}, width)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			f(i)
		}()
	}
	wg.Wait()
}

// TestModel plays the model's histories.
func TestModel(t *testing.T) {
	f, err := os.Open(os.Getenv("VERIF_HIST"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var all [][]step
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<22)
	for sc.Scan() {
		var h []step
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			t.Fatal(err)
		}
		all = append(all, h)
	}
	rnd := rand.New(rand.NewSource(tr.Seed()))
	rnd.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	res := newResult("model")
	per, n := 60, tr.N(24, 200)
	if n*per > len(all) {
		n = len(all) / per
	}
	parallel(n, 4, func(i int) {
		var descs []string
		hs := all[i*per : (i+1)*per]
		for j, h := range hs {
			b, _ := json.Marshal(h)
			descs = append(descs, fmt.Sprintf("world %d target %d %s", i, j, b))
		}
		play(t, tr.Seed()*1000+int64(i), res, hs, descs, false)
	})
	res.done("model")
}

// TestRandom plays long histories.
func TestRandom(t *testing.T) {
	res := newResult("random")
	parallel(tr.N(24, 200), 4, func(i int) {
		n := []int{1, 2, 12, 40}[i%4]
		var descs []string
		for j := 0; j < n; j++ {
			descs = append(descs, fmt.Sprintf("random world %d target %d", i, j))
		}
		play(t, tr.Seed()*5000+int64(i), res, make([][]step, n), descs, true)
	})
	res.done("random")
}

// TestFake uses the repository's own fake target.
func TestFake(t *testing.T) {
	res := newResult("fake")
	parallel(tr.N(8, 60), 4, func(i int) { playFake(t, tr.Seed()*9000+int64(i), res, i) })
	res.done("fake")
}

func playFake(t *testing.T, seed int64, res *result, world_ int) {
	rnd := rand.New(rand.NewSource(seed))
	dir, err := os.MkdirTemp(filepath.Join(tr.Dir(), "tmp"), "coll")
	if err != nil {
		t.Fatal(err)
	}
	cert, key := certs(t, dir)
	creds, err := credentials.NewServerTLSFromFile(cert, key)
	if err != nil {
		t.Fatal(err)
	}
	cfg := &tpb.Configuration{Request: map[string]*gpb.SubscribeRequest{"r": {Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{
		Prefix: &gpb.Path{Origin: "openconfig"}, Subscription: []*gpb.Subscription{{Path: &gpb.Path{}}}}}}}, Target: map[string]*tpb.Target{}}
	w := &world{cert: cert, key: key, sem: make(chan struct{}, 8)}
	var xs []*target
	for i := 0; i < 6; i++ {
		name := fmt.Sprintf("fake%d", i)
		x := &target{name: name, w: w, rnd: rand.New(rand.NewSource(seed*1000 + int64(i))), desc: fmt.Sprintf("fake world %d target %d", world_, i), qs: map[observer][]query{}, marks: 1}
		x.ls = schema(x.rnd, 3+x.rnd.Intn(6))
		for range x.ls {
			x.kind = append(x.kind, x.rnd.Intn(10))
		}
		fc := &fpb.Config{Target: name, DisableEof: true}
		x.add(ev{"e": "sess", "got": "", "want": ""})
		ts := int64(1000)
		if i%2 == 0 {
			// whole responses
			f := &fpb.FixedGenerator{}
			say := func(ups []at, vals []val, dels []at, maxPre int) {
				_, ps := encode(x.rnd, name, append(append([]at{}, ups...), dels...), 0)
				ts += int64(1 + x.rnd.Intn(50))
				// the fake target replaces the prefix
				n := &gpb.Notification{Timestamp: ts}
				eu, ed := []ev{}, []ev{}
				for k, v := range vals {
					ps[k].Origin = ups[k].origin
					n.Update = append(n.Update, &gpb.Update{Path: ps[k], Val: v.tv})
					eu = append(eu, ev{"p": gp.Path(ps[k]), "v": v.ev()})
				}
				for k, p := range ps[len(ups):] {
					p.Origin = dels[k].origin
					n.Delete = append(n.Delete, p)
					ed = append(ed, gp.Path(p))
				}
				x.add(ev{"e": "noti", "n": ev{"pre": gp.Path(nil), "up": eu, "del": ed}})
				f.Responses = append(f.Responses, &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: n}})
			}
			for k := 3 + x.rnd.Intn(20); k > 0; k-- {
				l := x.rnd.Intn(len(x.ls))
				if x.rnd.Intn(4) == 0 {
					say(nil, nil, []at{{x.ls[l].origin, x.ls[l].el[:x.rnd.Intn(len(x.ls[l].el)+1)]}}, 0)
				} else {
					say([]at{x.path(l)}, []val{x.val(l, x.rnd.Intn(5))}, nil, 0)
				}
			}
			say([]at{{mark.origin, mark.el}}, []val{x.marker()}, nil, 0)
			fc.Generator = &fpb.Config_Fixed{Fixed: f}
		} else {
			// constant values, and then deletions of some, in the deprecated encoding
			put := func(p []string, v *fpb.Value, y val) {
				ts += int64(1 + x.rnd.Intn(50))
				v.Path, v.Repeat, v.Timestamp = p, 1, &fpb.Timestamp{Timestamp: ts}
				fc.Values = append(fc.Values, v)
				n := ev{"pre": gp.Path(nil), "up": []ev{}, "del": []ev{}}
				q := gp.Path(&gpb.Path{Element: p})
				if v.GetDelete() != nil {
					n["del"] = []ev{q}
				} else {
					n["up"] = []ev{{"p": q, "v": y.ev()}}
				}
				x.add(ev{"e": "noti", "n": n})
			}
			for k := range x.ls {
				x.ls[k].origin = ""
				p := index(x.ls[k].el)
				switch k % 4 {
				case 0:
					put(p, &fpb.Value{Value: &fpb.Value_IntValue{IntValue: &fpb.IntValue{Value: int64(k)}}}, mk(nil, int64(k)))
				case 1:
					put(p, &fpb.Value{Value: &fpb.Value_StringValue{StringValue: &fpb.StringValue{Value: "v" + fmt.Sprint(k)}}}, mk(nil, "v"+fmt.Sprint(k)))
				case 2:
					put(p, &fpb.Value{Value: &fpb.Value_DoubleValue{DoubleValue: &fpb.DoubleValue{Value: float64(k) + 0.25}}}, mk(nil, float64(k)+0.25))
				case 3:
					put(p, &fpb.Value{Value: &fpb.Value_BoolValue{BoolValue: &fpb.BoolValue{Value: true}}}, mk(nil, true))
				}
				if k > 0 && x.rnd.Intn(3) == 0 {
					put(index(x.ls[k-1].el), &fpb.Value{Value: &fpb.Value_Delete{Delete: &fpb.DeleteValue{}}}, val{})
				}
			}
			put(index(mark.el), &fpb.Value{Value: &fpb.Value_IntValue{IntValue: &fpb.IntValue{Value: 1}}}, x.marker())
		}
		a, err := fgnmi.New(fc, []grpc.ServerOption{grpc.Creds(creds)})
		if err != nil {
			t.Fatal(err)
		}
		defer a.Close()
		cfg.Target[name] = &tpb.Target{Addresses: []string{a.Address()}, Request: "r"}
		xs = append(xs, x)
	}
	w.coll, w.addr = collector(t, dir, cfg, cert, key)
	defer w.coll.kill()
	base := newLib(rnd, w.addr, "*", []query{{origin: "openconfig", el: mark.el}}, false)
	defer base.close()
	var wg sync.WaitGroup
	for _, x := range xs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.base = base
			if !x.waitMarked(false) { // there is one mark only
				return
			}
			x.join()
			defer x.obs[0].close()
			if x.waitMarked(true) {
				x.final()
			}
		}()
	}
	wg.Wait()
	for _, x := range xs {
		res.put(x)
	}
}
