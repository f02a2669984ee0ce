// Package cacheh records traces of the telemetry cache.
package cacheh

import (
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/metadata"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"google.golang.org/protobuf/proto"
	"verif/harness/gp"
	"verif/harness/tr"
)

const base = int64(1_700_000_000) * 1_000_000_000
const sec = int64(1_000_000_000)

// unit is the distance of the timestamps of a world.
var unit = sec

func ts(k int) int64 { return base + int64(k)*unit }

// tsOf maps a timestamp to units since base (rounded down).
func tsOf(t int64) int {
	d := t - base
	if d < -1000*sec {
		return -9999
	}
	if d > 999_999*unit {
		return 999_999
	}
	if d < 0 {
		return -1
	}
	return int(d / unit)
}

// clock is the cache's clock: within unit k, and strictly increasing unless it is coarse.
type clock struct {
	k      int
	ctr    int64
	coarse bool
}

func (c *clock) now() time.Time {
	if !c.coarse {
		c.ctr++
	}
	return time.Unix(0, ts(c.k)+c.ctr)
}

type config struct {
	ed      bool
	thr     int
	targets []string
	fam     int // family of values
	seed    int64
	unit    int64 // 0: a second
	coarse  bool
}

type world struct {
	cfg   config
	c     *cache.Cache
	clk   *clock
	rng   *rand.Rand
	feed  []tr.Ev
	evs   []tr.Ev
	ids   map[string]int
	kept  []kept
	pre   map[string]*pb.Path
	dead  bool
	leafs []*ctree.Leaf
	sink  func(*ctree.Leaf)
	light bool // no counters, no metadata
}

type kept struct{ n, c *pb.Notification }

func newWorld(cfg config) *world {
	w := &world{cfg: cfg, clk: &clock{}, rng: rand.New(rand.NewSource(cfg.seed)), ids: map[string]int{}, pre: map[string]*pb.Path{}}
	if unit = cfg.unit; unit == 0 {
		unit = sec
	}
	if w.clk.coarse = cfg.coarse; unit == 1 {
		w.clk.ctr = 1000 * sec // the clock is far ahead
	}
	cache.Now = w.clk.now
	var opts []cache.Option
	if !cfg.ed {
		opts = append(opts, cache.DisableEventDrivenEmulation())
	}
	if cfg.thr > 0 {
		opts = append(opts, cache.WithFutureThreshold(time.Duration(int64(cfg.thr)*unit)))
	}
	w.c = cache.New(cfg.targets, opts...)
	w.c.SetClient(func(l *ctree.Leaf) {
		if n, ok := l.Value().(*pb.Notification); ok {
			w.feed = append(w.feed, w.noti(n))
		} else {
			w.feed = append(w.feed, tr.Ev{"junk": fmt.Sprintf("%T", l.Value())})
		}
		if w.sink != nil {
			w.sink(l)
		}
	})
	return w
}

func (w *world) header() tr.Ev {
	return tr.Ev{"ed": w.cfg.ed, "thr": w.cfg.thr, "targets": w.cfg.targets}
}

// av is the value of an atomic notification: all its updates.
func av(n *pb.Notification) string {
	var s []string
	for _, u := range n.GetUpdate() {
		b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(u)
		h := fnv.New64a()
		h.Write(b)
		s = append(s, hex.EncodeToString(h.Sum(nil)))
	}
	return "A[" + strings.Join(s, " ") + "]"
}

func (w *world) id(n *pb.Notification) int {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(n)
	if err != nil {
		return -1
	}
	k := string(b)
	if _, ok := w.ids[k]; !ok {
		w.ids[k] = len(w.ids) + 1
	}
	return w.ids[k]
}

// noti encodes a notification with the identities of its parts.
func (w *world) noti(n *pb.Notification) tr.Ev {
	e := gp.Noti(n, tsOf)
	ids := []int{}
	if !n.GetAtomic() {
		for _, u := range n.GetUpdate() {
			ids = append(ids, w.id(&pb.Notification{Timestamp: n.GetTimestamp(), Prefix: n.GetPrefix(), Update: []*pb.Update{u}}))
		}
		e["av"], e["aid"] = "", 0
	} else {
		e["av"], e["aid"] = av(n), w.id(n)
	}
	e["ids"] = ids
	return e
}

func (w *world) leaves(t string) tr.Ev {
	m := []tr.Ev{}
	err := w.c.Query(t, []string{"*"}, func(p []string, _ *ctree.Leaf, v any) error {
		n, ok := v.(*pb.Notification)
		if !ok {
			m = append(m, tr.Ev{"p": append([]string{}, p...), "ts": -9, "v": fmt.Sprintf("%T", v), "at": false, "id": 0})
			return nil
		}
		e := tr.Ev{"p": append([]string{}, p...), "ts": tsOf(n.GetTimestamp()), "at": n.GetAtomic(), "id": w.id(n)}
		if n.GetAtomic() {
			e["v"] = av(n)
		} else if len(n.GetUpdate()) == 1 {
			e["v"] = gp.Val(n.GetUpdate()[0].GetVal())
		} else {
			e["v"] = fmt.Sprintf("%d updates", len(n.GetUpdate()))
		}
		m = append(m, e)
		return nil
	})
	sort.Slice(m, func(i, j int) bool {
		return strings.Join(m[i]["p"].([]string), "\x00") < strings.Join(m[j]["p"].([]string), "\x00")
	})
	return tr.Ev{"ok": err == nil, "has": w.c.HasTarget(t), "m": m}
}

var intNames = map[string]string{
	"upd": metadata.UpdateCount, "sup": metadata.SuppressedCount, "stale": metadata.StaleCount, "fut": metadata.FutureCount,
	"empty": metadata.EmptyCount, "add": metadata.AddCount, "del": metadata.DelCount, "leaf": metadata.LeafCount,
}

func (w *world) counters(t string) tr.Ev {
	e := tr.Ev{}
	md := w.c.Metadata()[t]
	if md == nil {
		return e
	}
	for k, n := range intNames {
		v, err := md.GetInt(n)
		if err != nil {
			v = 0
		}
		e[k] = v
	}
	s, err := md.GetBool(metadata.Sync)
	e["sync"] = s && err == nil
	s, err = md.GetBool(metadata.Connected)
	e["conn"] = s && err == nil
	return e
}

// exported reads the metadata leaves of a target.
func (w *world) exported(t string) tr.Ev {
	e := tr.Ev{}
	get := func(name string) any {
		var r any
		w.c.Query(t, metadata.Path(name), func(_ []string, _ *ctree.Leaf, v any) error {
			if n, ok := v.(*pb.Notification); ok && len(n.GetUpdate()) == 1 {
				switch x := n.GetUpdate()[0].GetVal().GetValue().(type) {
				case *pb.TypedValue_IntVal:
					r = x.IntVal
				case *pb.TypedValue_BoolVal:
					r = x.BoolVal
				}
			}
			return nil
		})
		return r
	}
	for k, n := range intNames {
		if v, ok := get(n).(int64); ok {
			e[k] = v
		}
	}
	for k, n := range map[string]string{"sync": metadata.Sync, "conn": metadata.Connected} {
		if v, ok := get(n).(bool); ok {
			e[k] = v
		}
	}
	if v, ok := get(metadata.LatestTimestamp).(int64); ok {
		e["latest"] = tsOf(v)
	}
	return e
}

// latest0 says that the latest timestamp is exported, if at all, as that of a
// target without any updates.
func (w *world) latest0(t string) bool {
	get := func(c *cache.Cache, t string) (r any) {
		c.Query(t, metadata.Path(metadata.LatestTimestamp), func(_ []string, _ *ctree.Leaf, v any) error {
			if n, ok := v.(*pb.Notification); ok && len(n.GetUpdate()) == 1 {
				r = gp.Val(n.GetUpdate()[0].GetVal())
			}
			return nil
		})
		return r
	}
	c := cache.New([]string{"fresh"})
	c.UpdateMetadata()
	v := get(w.c, t)
	return v == nil || v == get(c, "fresh")
}

func (w *world) observe(e tr.Ev) {
	obs, cnt := tr.Ev{}, tr.Ev{}
	for _, t := range w.cfg.targets {
		obs[t] = w.leaves(t)
		if !w.light {
			cnt[t] = w.counters(t)
		}
	}
	e["obs"] = obs
	if !w.light {
		e["cnt"] = cnt
	}
	f := w.feed
	if f == nil {
		f = []tr.Ev{}
	}
	e["feed"] = f
	e["now"] = w.clk.k
	w.feed = nil
	w.evs = append(w.evs, e)
}

func (w *world) guard(f func()) {
	if w.dead {
		return
	}
	defer func() {
		if x := recover(); x != nil {
			w.evs = append(w.evs, tr.Ev{"e": "panic", "msg": fmt.Sprint(x)})
			w.dead = true
		}
	}()
	f()
}

func errText(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, cache.ErrStale):
		return "stale"
	case errors.Is(err, cache.ErrFuture):
		return "future"
	}
	return "other"
}

func (w *world) same() bool {
	for _, k := range w.kept {
		if !proto.Equal(k.n, k.c) {
			return false
		}
	}
	return true
}

func (w *world) submit(n *pb.Notification) {
	w.guard(func() {
		w.kept = append(w.kept, kept{n, proto.Clone(n).(*pb.Notification)})
		enc := w.noti(n)
		err := w.c.GnmiUpdate(n)
		w.observe(tr.Ev{"e": "op", "op": "upd", "t": n.GetPrefix().GetTarget(), "n": enc, "err": errText(err), "same": w.same()})
	})
}

func (w *world) op(op, t string) {
	w.guard(func() {
		e := tr.Ev{"e": "op", "op": op, "t": t}
		switch op {
		case "rst":
			w.c.Reset(t)
			e["latest0"] = w.latest0(t)
		case "rm":
			w.c.Remove(t)
		case "add":
			if w.c.HasTarget(t) {
				return // adding an existing target is not part of the model
			}
			w.c.Add(t)
		case "sync":
			w.c.Sync(t)
		case "conn":
			w.c.Connect(t)
		case "cerr":
			w.c.ConnectError(t, errors.New("refused"))
		case "meta":
			w.c.UpdateMetadata()
			exp, l0 := tr.Ev{}, tr.Ev{}
			for _, t := range w.cfg.targets {
				exp[t] = w.exported(t)
				l0[t] = w.latest0(t)
			}
			e["exp"], e["latest0"] = exp, l0
		case "size":
			w.c.UpdateSize()
		case "tick":
			w.clk.k++
			return
		}
		w.observe(e)
	})
}

func (w *world) end() {
	w.guard(func() {
		e := tr.Ev{"e": "end", "same": w.same()}
		w.evs = append(w.evs, e)
	})
}

// ---- rendering of abstract paths --------------------------------------

var listKeys = []string{"id", "k", "key", "name"}

// elems renders an index path as elements, grouping some strings as keys.
func elems(idx []string, r *rand.Rand) []*pb.PathElem {
	out := make([]*pb.PathElem, 0, len(idx)+r.Intn(4)) // spare capacity
	for i := 0; i < len(idx); {
		e := &pb.PathElem{Name: idx[i]}
		i++
		nk := 0
		if r.Intn(3) == 0 && i < len(idx) {
			nk = 1
			if r.Intn(3) == 0 && i+1 < len(idx) {
				nk = 2
			}
		}
		if nk > 0 {
			e.Key = map[string]string{}
			ks := r.Perm(len(listKeys))[:nk]
			sort.Ints(ks)
			for j := 0; j < nk; j++ {
				e.Key[listKeys[ks[j]]] = idx[i]
				i++
			}
		}
		out = append(out, e)
	}
	return out
}

func (w *world) pathOf(idx []string, r *rand.Rand) *pb.Path {
	if len(idx) == 0 && r.Intn(2) == 0 {
		return nil
	}
	if r.Intn(10) == 0 {
		return &pb.Path{Element: append(make([]string, 0, len(idx)+r.Intn(3)), idx...)}
	}
	return &pb.Path{Elem: elems(idx, r)}
}

// rand for rendering: mostly a function of the path, so that the same
// message is submitted again and again.
func (w *world) renderRand(parts ...string) *rand.Rand {
	if w.rng.Intn(8) == 0 {
		return rand.New(rand.NewSource(w.rng.Int63()))
	}
	h := fnv.New64a()
	h.Write([]byte(strings.Join(parts, "\x00")))
	return rand.New(rand.NewSource(int64(h.Sum64()) ^ w.cfg.seed))
}

// prefix renders (and shares) the prefix object for the first k strings.
func (w *world) prefix(t string, idx []string, r *rand.Rand) *pb.Path {
	key := t + "\x00" + strings.Join(idx, "\x00")
	if p := w.pre[key]; p != nil && r.Intn(4) != 0 {
		return p
	}
	p := &pb.Path{}
	rest := idx
	if len(idx) > 0 && r.Intn(3) == 0 {
		p.Origin = idx[0]
		rest = idx[1:]
	}
	if len(rest) > 0 {
		if r.Intn(8) == 0 {
			p.Element = append(make([]string, 0, len(rest)+2), rest...)
		} else {
			p.Elem = elems(rest, r)
		}
	}
	p.Target = t
	w.pre[key] = p
	return p
}

type absUp struct {
	p []string
	v int
}

type absNoti struct {
	ts   int
	at   bool
	p    []string
	ups  []absUp
	dels [][]string
}

func common(ps [][]string) int {
	if len(ps) == 0 {
		return 0
	}
	k := len(ps[0])
	for _, p := range ps[1:] {
		i := 0
		for i < k && i < len(p) && p[i] == ps[0][i] {
			i++
		}
		k = i
	}
	for i := 0; i < k; i++ {
		if ps[0][i] == "*" {
			return i
		}
	}
	return k
}

// build renders an abstract notification for target t.
func (w *world) build(t string, a absNoti) *pb.Notification {
	n := &pb.Notification{Timestamp: ts(a.ts), Atomic: a.at}
	if a.at {
		r := w.renderRand(append([]string{"at", t}, a.p...)...)
		n.Prefix = w.prefix(t, a.p, r)
		for _, u := range a.ups {
			n.Update = append(n.Update, &pb.Update{Path: w.pathOf(u.p, r), Val: w.val(u.v)})
		}
		for _, d := range a.dels {
			n.Delete = append(n.Delete, w.pathOf(d, r))
		}
		return n
	}
	var ps [][]string
	for _, u := range a.ups {
		ps = append(ps, u.p)
	}
	ps = append(ps, a.dels...)
	var flat []string
	for _, p := range ps {
		flat = append(flat, strings.Join(p, "\x01"))
	}
	r := w.renderRand(append([]string{"n", t}, flat...)...)
	k := common(ps)
	if k > 0 {
		k = r.Intn(k + 1)
	}
	var pre []string
	if len(ps) > 0 {
		pre = ps[0][:k]
	}
	n.Prefix = w.prefix(t, pre, r)
	for _, u := range a.ups {
		n.Update = append(n.Update, &pb.Update{Path: w.pathOf(u.p[k:], r), Val: w.val(u.v)})
	}
	for _, d := range a.dels {
		n.Delete = append(n.Delete, w.pathOf(d[k:], r))
	}
	return n
}

// val renders value v of the case's family; different v are different values.
func (w *world) val(v int) *pb.TypedValue {
	list := func(s ...string) *pb.TypedValue {
		a := &pb.ScalarArray{}
		for _, x := range s {
			a.Element = append(a.Element, gp.Str(x))
		}
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: a}}
	}
	switch w.cfg.fam % 8 {
	case 0:
		return gp.Str(strings.Repeat("v", v))
	case 1:
		return gp.Int(int64(v))
	case 2: // same digits, different types
		switch v % 4 {
		case 0:
			return gp.Int(int64(v / 4))
		case 1:
			return &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: uint64(v / 4)}}
		case 2:
			return gp.Str(fmt.Sprint(v / 4))
		default:
			return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: float64(v / 4)}}
		}
	case 3:
		return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: 0.25 * float64(v)}}
	case 4: // prefixes of one another
		var s []string
		for i := 0; i < v; i++ {
			s = append(s, "x")
		}
		return list(s...)
	case 5: // same length
		return list("a", fmt.Sprint(v), "z")
	case 6:
		return &pb.TypedValue{Value: &pb.TypedValue_JsonVal{JsonVal: []byte(fmt.Sprintf(`{"x":%d}`, v))}}
	default:
		if v%2 == 0 {
			return &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: []byte{byte(v), 0}}}
		}
		return &pb.TypedValue{Value: &pb.TypedValue_JsonIetfVal{JsonIetfVal: []byte(fmt.Sprint(v))}}
	}
}

var _ = testing.Short
