// Package configh records loads of target configurations.
package configh

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	extpb "github.com/openconfig/gnmi/proto/gnmi_ext"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/target"
	"google.golang.org/protobuf/proto"
	"verif/harness/sched"
	"verif/harness/tr"
	"verif/harness/vsync"
)

func id(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return "unmarshalable"
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:5])
}

func tgtID(t *tpb.Target) string {
	if t == nil {
		return "nil"
	}
	return id(t)
}

func reqID(q *gpb.SubscribeRequest) string {
	if q == nil {
		return "nil"
	}
	return id(q)
}

func render(c *tpb.Configuration, rank func(int64) int) tr.Ev {
	req, tgt := tr.Ev{}, tr.Ev{}
	for k, v := range c.GetRequest() {
		req[k] = reqID(v)
	}
	for k, v := range c.GetTarget() {
		tgt[k] = tr.Ev{"c": tgtID(v), "r": v.GetRequest(), "bad": v == nil || len(v.GetAddresses()) == 0 || v.GetRequest() == ""}
	}
	return tr.Ev{"rev": rank(c.GetRevision()), "req": req, "tgt": tgt}
}

func view(u target.Update) tr.Ev {
	return tr.Ev{"c": tgtID(u.Target), "r": u.Target.GetRequest(), "q": reqID(u.Request)}
}

// ranks keeps the order of revisions within 32 bits.
func ranks(cs []*tpb.Configuration) func(int64) int {
	set := map[int64]bool{0: true}
	for _, c := range cs {
		set[c.GetRevision()] = true
	}
	var s []int64
	for k := range set {
		s = append(s, k)
	}
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return func(r int64) int {
		for i, x := range s {
			if x == r {
				return i
			}
		}
		return -1
	}
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return "err"
}

// runSeq loads the configurations one after the other; base (optional) is the
// initial one.
func runSeq(base *tpb.Configuration, cs []*tpb.Configuration, hand string) (evs []tr.Ev) {
	defer func() {
		if x := recover(); x != nil {
			evs = append(evs, tr.Ev{"e": "panic", "msg": fmt.Sprint(x)})
		}
	}()
	rank := ranks(append(append([]*tpb.Configuration{}, cs...), base))
	calls := []tr.Ev{}
	h := target.Handler{}
	if strings.Contains(hand, "a") {
		h.Add = func(u target.Update) { calls = append(calls, tr.Ev{"k": "add", "n": u.Name, "v": view(u)}) }
	}
	if strings.Contains(hand, "u") {
		h.Update = func(u target.Update) { calls = append(calls, tr.Ev{"k": "upd", "n": u.Name, "v": view(u)}) }
	}
	if strings.Contains(hand, "d") {
		h.Delete = func(n string) { calls = append(calls, tr.Ev{"k": "del", "n": n}) }
	}
	var c *target.Config
	if base != nil {
		var err error
		b := proto.Clone(base).(*tpb.Configuration)
		fixNil(base, b)
		c, err = target.NewConfigWithBase(h, b)
		evs = append(evs, tr.Ev{"e": "base", "cf": render(base, rank), "err": errStr(err)})
		if err != nil {
			return append(evs, tr.Ev{"e": "end"})
		}
	} else if len(cs)%2 == 0 {
		c = target.NewConfig(h)
	} else {
		c, _ = target.NewConfigWithBase(h, nil)
	}
	for _, cf := range cs {
		calls = []tr.Ev{}
		var x *tpb.Configuration
		if cf != nil {
			x = proto.Clone(cf).(*tpb.Configuration)
			fixNil(cf, x)
		}
		err := c.Load(x)
		evs = append(evs, tr.Ev{"e": "load", "nil": cf == nil, "cf": render(cf, rank), "err": errStr(err), "calls": calls, "cur": render(c.Current(), rank)})
	}
	return append(evs, tr.Ev{"e": "end"})
}

// fixNil: a clone turns missing targets into empty ones.
func fixNil(from, to *tpb.Configuration) {
	for k, v := range from.Target {
		if v == nil {
			to.Target[k] = nil
		}
	}
}

type hcfg struct {
	Rev int64 `json:"rev"`
	Req any   `json:"req"`
	Tgt any   `json:"tgt"`
}

func (h hcfg) proto() *tpb.Configuration {
	c := &tpb.Configuration{Revision: h.Rev, Request: map[string]*gpb.SubscribeRequest{}, Target: map[string]*tpb.Target{}}
	if m, ok := h.Req.(map[string]any); ok {
		for k, v := range m {
			c.Request[k] = request(int(v.(float64)))
		}
	}
	if m, ok := h.Tgt.(map[string]any); ok {
		for k, v := range m {
			x := v.(map[string]any)
			c.Target[k] = &tpb.Target{Addresses: []string{fmt.Sprint("addr", x["c"])}, Request: x["r"].(string)}
		}
	}
	return c
}

func request(v int) *gpb.SubscribeRequest {
	return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{
		Prefix:       &gpb.Path{Origin: "openconfig"},
		Subscription: []*gpb.Subscription{{Path: &gpb.Path{Elem: []*gpb.PathElem{{Name: fmt.Sprint("e", v)}}}}},
	}}}
}

// TestReplay loads the histories TLC enumerated.
func TestReplay(t *testing.T) {
	f, err := os.Open(os.Getenv("VERIF_HIST"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var all [][]hcfg
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		var h []hcfg
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			t.Fatal(err)
		}
		all = append(all, h)
	}
	r := rand.New(rand.NewSource(tr.Seed()))
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if n := tr.N(4000, len(all)); len(all) > n {
		all = all[:n]
	}
	w := tr.New("replay", 6)
	defer w.Close()
	for i, h := range all {
		var cs []*tpb.Configuration
		for _, x := range h {
			cs = append(cs, x.proto())
		}
		w.CaseCfg(fmt.Sprint("history ", i), tr.Ev{"hand": true}, runSeq(nil, cs, "aud"))
	}
	tr.Stats("replay", map[string]any{"cases": w.Cases, "events": w.Events})
}

var names = []string{"dev1", "dev2", "x/y", "ünï", "*"}
var rnames = []string{"r1", "r2", "r3"}

func randTarget(r *rand.Rand) *tpb.Target {
	t := &tpb.Target{Request: rnames[r.Intn(3)]}
	for i := 0; i < 1+r.Intn(2); i++ {
		t.Addresses = append(t.Addresses, fmt.Sprintf("h%d:%d", r.Intn(2), r.Intn(2)))
	}
	if r.Intn(3) == 0 {
		t.Credentials = &tpb.Credentials{Username: fmt.Sprint("u", r.Intn(2)), Password: fmt.Sprint("p", r.Intn(2)), PasswordId: fmt.Sprint("i", r.Intn(2))}
	}
	if r.Intn(3) == 0 {
		t.Meta = map[string]string{"k": fmt.Sprint(r.Intn(2))}
	}
	if r.Intn(4) == 0 {
		t.Dialer = "d"
	}
	return t
}

// tweak changes one field of the settings.
func tweak(r *rand.Rand, t *tpb.Target) {
	switch r.Intn(8) {
	case 0:
		t.Addresses = append(t.Addresses, "h9:9")
	case 1:
		if len(t.Addresses) > 1 {
			t.Addresses[0], t.Addresses[1] = t.Addresses[1], t.Addresses[0]
		}
	case 2:
		t.Request = rnames[r.Intn(3)]
	case 3:
		if t.Credentials == nil {
			t.Credentials = &tpb.Credentials{}
		} else {
			t.Credentials = nil
		}
	case 4:
		t.Credentials = &tpb.Credentials{Username: t.GetCredentials().GetUsername(), Password: t.GetCredentials().GetPassword() + "x"}
	case 5:
		if t.Meta == nil {
			t.Meta = map[string]string{"m0": "0", "m1": "0"}
		}
		// an entry changed, added, removed or renamed
		k := fmt.Sprint("m", r.Intn(2))
		switch r.Intn(3) {
		case 0:
			t.Meta[k] = fmt.Sprint(r.Intn(4))
		case 1:
			delete(t.Meta, k)
		case 2:
			v := t.Meta[k]
			delete(t.Meta, k)
			t.Meta[fmt.Sprint("m", r.Intn(3))] = v
		}
	case 6:
		t.Dialer = fmt.Sprint("d", r.Intn(2))
	case 7:
		t.Addresses = []string{"h0:0"}
	}
}

func randRequest(r *rand.Rand) *gpb.SubscribeRequest {
	q := request(r.Intn(2))
	s := q.GetSubscribe()
	switch r.Intn(8) {
	case 0:
		s.Prefix = nil
	case 1:
		s.UpdatesOnly = true
	case 2:
		s.Subscription = append(s.Subscription, &gpb.Subscription{Path: &gpb.Path{Element: []string{"z"}}, SampleInterval: 3})
	case 3:
		s.Subscription[0].Path.Elem[0].Key = map[string]string{"k1": "a", "k2": fmt.Sprint(r.Intn(2))}
	case 4:
		q.Extension = []*extpb.Extension{{Ext: &extpb.Extension_RegisteredExt{RegisteredExt: &extpb.RegisteredExtension{Msg: []byte{byte(r.Intn(3))}}}}}
	case 5:
		s.Encoding = gpb.Encoding(r.Intn(3))
		s.Subscription[0].Mode = gpb.SubscriptionMode(r.Intn(3))
	}
	return q
}

func randNext(r *rand.Rand, prev *tpb.Configuration, maxRev int64, evil bool) *tpb.Configuration {
	if evil && r.Intn(40) == 0 {
		return nil
	}
	c := &tpb.Configuration{Request: map[string]*gpb.SubscribeRequest{}, Target: map[string]*tpb.Target{}}
	if prev != nil && r.Intn(8) > 0 {
		c = proto.Clone(prev).(*tpb.Configuration)
		for k, v := range c.Target {
			if len(v.GetAddresses()) == 0 || v.GetRequest() == "" || k == "" {
				delete(c.Target, k)
			}
		}
	}
	if c.Request == nil {
		c.Request = map[string]*gpb.SubscribeRequest{}
	}
	if c.Target == nil {
		c.Target = map[string]*tpb.Target{}
	}
	for n := r.Intn(5); prev == nil && n > 0; n-- {
		c.Target[names[r.Intn(len(names))]] = randTarget(r)
	}
	for i, n := 0, r.Intn(5); i < n; i++ {
		k, q := names[r.Intn(len(names))], rnames[r.Intn(3)]
		switch r.Intn(9) {
		case 0, 1:
			c.Target[k] = randTarget(r)
		case 2:
			delete(c.Target, k)
		case 3, 4:
			for j := 0; j < len(names); j++ {
				if t := c.Target[names[(i+j)%len(names)]]; t != nil {
					tweak(r, t)
					break
				}
			}
		case 5, 6:
			c.Request[q] = randRequest(r)
		case 7:
			delete(c.Request, q)
		case 8:
			if r.Intn(2) == 0 {
				c.InstanceId += "i"
			} else {
				c.Meta = map[string]string{"x": fmt.Sprint(r.Intn(3))}
			}
		}
	}
	bad := evil && r.Intn(5) == 0
	// mostly valid
	var ks []string
	for k := range c.Target {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if t := c.Target[k]; c.Request[t.Request] == nil && !bad {
			c.Request[t.Request] = randRequest(r)
		}
	}
	if bad {
		switch r.Intn(5) {
		case 0:
			c.Target[""] = randTarget(r)
		case 1:
			c.Target[names[r.Intn(3)]] = nil
		case 2:
			x := randTarget(r)
			x.Addresses = nil
			c.Target[names[r.Intn(3)]] = x
		case 3:
			x := randTarget(r)
			x.Request = ""
			c.Target[names[r.Intn(3)]] = x
			if r.Intn(2) == 0 {
				c.Request[""] = randRequest(r)
			}
		case 4:
			x := randTarget(r)
			x.Request = "missing"
			c.Target[names[r.Intn(3)]] = x
		}
	}
	switch r.Intn(12) {
	case 0:
		c.Revision = maxRev
	case 1:
		c.Revision = maxRev - 1 - int64(r.Intn(2))
	case 2:
		if evil && r.Intn(3) == 0 {
			c.Revision = []int64{0, -1, math.MinInt64, math.MaxInt64, 1 << 32, 1<<33 + 5}[r.Intn(6)]
			break
		}
		fallthrough
	default:
		c.Revision = maxRev + 1 + int64(r.Intn(3))
	}
	return c
}

// TestRandom loads random sequences.
func TestRandom(t *testing.T) {
	w := tr.New("random", 6)
	defer w.Close()
	n := tr.N(4000, 40000)
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(tr.Seed()*1000003 + int64(i)))
		var base *tpb.Configuration
		max := int64(r.Intn(3)) - 1
		if r.Intn(3) == 0 {
			base = randNext(r, nil, max, r.Intn(3) == 0)
		}
		var cs []*tpb.Configuration
		prev := base
		if prev != nil {
			max = prev.Revision
		}
		for k := 0; k < 2+r.Intn(8); k++ {
			c := randNext(r, prev, max, true)
			cs = append(cs, c)
			if c != nil {
				ok := target.Validate(c) == nil
				if ok && (c.Revision > max || prev == nil) || r.Intn(20) == 0 {
					prev = c
				}
				if ok && c.Revision > max && c.Revision < 1<<31 {
					max = c.Revision
				}
			}
		}
		hand := "aud"
		if r.Intn(12) == 0 {
			hand = []string{"", "a", "u", "d", "au"}[r.Intn(5)]
		}
		w.CaseCfg(fmt.Sprint("random ", i), tr.Ev{"hand": hand == "aud"}, runSeq(base, cs, hand))
	}
	tr.Stats("random", map[string]any{"cases": w.Cases, "events": w.Events})
}

// ---- concurrent -----------------------------------------------------------

type crec struct {
	mu  sync.Mutex
	evs []tr.Ev
	g   map[uint64]int
}

func (c *crec) add(e tr.Ev) {
	c.mu.Lock()
	c.evs = append(c.evs, e)
	c.mu.Unlock()
}

func runConc(r *rand.Rand, pk sched.Picker) (evs []tr.Ev) {
	// configurations of each goroutine
	n := 2 + r.Intn(2)
	var all []*tpb.Configuration
	per := make([][]*tpb.Configuration, n)
	var prev *tpb.Configuration
	for g := range per {
		for k := 0; k < 1+r.Intn(2); k++ {
			c := randNext(r, prev, int64(r.Intn(3)), false)
			if target.Validate(c) != nil {
				continue
			}
			if r.Intn(2) == 0 {
				prev = c
			}
			c.Revision = int64(1 + r.Intn(4))
			per[g] = append(per[g], c)
			all = append(all, c)
		}
	}
	rank := ranks(all)
	rec := &crec{g: map[uint64]int{}}
	who := func() int {
		rec.mu.Lock()
		defer rec.mu.Unlock()
		g, ok := rec.g[vsync.GoID()]
		if !ok {
			return 99
		}
		return g
	}
	h := target.Handler{
		Add: func(u target.Update) {
			rec.add(tr.Ev{"e": "h", "g": who(), "k": "add", "n": u.Name, "v": view(u)})
			vsync.Yield("h", nil)
		},
		Update: func(u target.Update) {
			rec.add(tr.Ev{"e": "h", "g": who(), "k": "upd", "n": u.Name, "v": view(u)})
			vsync.Yield("h", nil)
		},
		Delete: func(n string) {
			rec.add(tr.Ev{"e": "h", "g": who(), "k": "del", "n": n})
			vsync.Yield("h", nil)
		},
	}
	c := target.NewConfig(h)
	ctl := vsync.NewController()
	vsync.Install(ctl)
	defer vsync.Install(nil)
	var mu sync.Mutex
	left := n
	for g := range per {
		go func() {
			rec.mu.Lock()
			rec.g[vsync.GoID()] = g
			rec.mu.Unlock()
			defer func() {
				if x := recover(); x != nil {
					rec.add(tr.Ev{"e": "panic", "msg": fmt.Sprint(x)})
				}
				mu.Lock()
				left--
				mu.Unlock()
			}()
			for _, cf := range per[g] {
				vsync.Yield("call", nil)
				x := proto.Clone(cf).(*tpb.Configuration)
				rec.add(tr.Ev{"e": "call", "g": g, "cf": render(cf, rank)})
				err := c.Load(x)
				rec.add(tr.Ev{"e": "ret", "g": g, "err": errStr(err)})
			}
		}()
	}
	ok := sched.Run(ctl, pk, func() bool { mu.Lock(); defer mu.Unlock(); return left == 0 }, time.Second, 4000)
	ctl.Release()
	if !ok {
		rec.add(tr.Ev{"e": "stuck"})
		return rec.evs
	}
	vsync.Install(nil)
	rec.add(tr.Ev{"e": "cur", "cur": render(c.Current(), rank)})
	rec.add(tr.Ev{"e": "end"})
	return rec.evs
}

// TestConcurrent loads from several goroutines under random schedules.
func TestConcurrent(t *testing.T) {
	w := tr.New("conc", 6)
	defer w.Close()
	n := tr.N(600, 8000)
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(tr.Seed()*7919 + int64(i)))
		var pk sched.Picker = sched.Random{R: r}
		if i%3 == 1 {
			pk = &sched.Sticky{R: r, N: 4}
		} else if i%3 == 2 {
			pk = sched.NewPCT(r, 30, 3)
		}
		var evs []tr.Ev
		synctest.Test(t, func(t *testing.T) { evs = runConc(r, pk) })
		w.Case(fmt.Sprint("concurrent ", i), evs)
	}
	tr.Stats("conc", map[string]any{"cases": w.Cases, "events": w.Events})
}

// TestRace loads and reads freely, for the race detector.
func TestRace(t *testing.T) {
	for i := 0; i < tr.N(60, 600); i++ {
		r := rand.New(rand.NewSource(tr.Seed()*31 + int64(i)))
		got := map[string]tr.Ev{}
		c := target.NewConfig(target.Handler{
			Add:    func(u target.Update) { got[u.Name] = view(u) },
			Update: func(u target.Update) { got[u.Name] = view(u) },
			Delete: func(n string) { delete(got, n) },
		})
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			var cs []*tpb.Configuration
			for k := 0; k < 6; k++ {
				x := randNext(r, nil, int64(k), false)
				cs = append(cs, x)
			}
			wg.Add(2)
			go func() {
				defer wg.Done()
				for _, x := range cs {
					c.Load(x)
				}
			}()
			go func() {
				defer wg.Done()
				for k := 0; k < 6; k++ {
					c.Current().GetRevision()
				}
			}()
		}
		wg.Wait()
		cur := c.Current()
		if len(cur.GetTarget()) != len(got) {
			os.Exit(68)
		}
	}
}
