// Package fakeh records what the synthetic target's generator emits.
package fakeh

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	fgnmi "github.com/openconfig/gnmi/testing/fake/gnmi"
	fpb "github.com/openconfig/gnmi/testing/fake/proto"
	"github.com/openconfig/gnmi/testing/fake/queue"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/proto"
	"verif/harness/fakes"
	"verif/harness/tr"
)

type ev = tr.Ev

// ---- encoding --------------------------------------------------------------

func limbs(u uint64) []int64 {
	return []int64{int64(u >> 48), int64(u >> 24 & 0xffffff), int64(u & 0xffffff)}
}
func snum(i int64) []int64 { return limbs(uint64(i) ^ 1<<63) }
func fnum(f float64) []int64 {
	if f != f {
		return []int64{-1, 0, 0} // in no range
	}
	if f == 0 {
		f = 0
		return limbs(1 << 63)
	}
	b := math.Float64bits(f)
	if b>>63 == 1 {
		return limbs(^b)
	}
	return limbs(b | 1<<63)
}

func val(n []int64, s string, l []string) ev {
	if n == nil {
		n = []int64{}
	}
	return ev{"n": n, "s": s, "l": append([]string{}, l...)}
}

var none = val(nil, "", nil)

func i64(i int64) ev     { return val(snum(i), "", nil) }
func u64(u uint64) ev    { return val(limbs(u), "", nil) }
func f64(f float64) ev   { return val(fnum(f), "", nil) }
func text(s string) ev   { return val(nil, s, nil) }
func flag(b bool) ev     { return val(nil, strconv.FormatBool(b), nil) }
func list(l []string) ev { return val(nil, "", l) }

// config describes a configured value to the specification.
func config(v *fpb.Value) ev {
	t := v.GetTimestamp()
	e := ev{"kind": "none", "tsset": t != nil, "ts": snum(t.GetTimestamp()), "dmin": snum(t.GetDeltaMin()), "dmax": snum(t.GetDeltaMax()),
		"rep": v.GetRepeat(), "dist": "const", "lo": snum(0), "hi": snum(0), "dlo": snum(0), "dhi": snum(0), "cum": false, "init": none, "opts": []ev{}}
	opts := []ev{}
	switch x := v.GetValue().(type) {
	case *fpb.Value_IntValue:
		e["kind"], e["init"] = "int", i64(x.IntValue.Value)
		switch d := x.IntValue.Distribution.(type) {
		case *fpb.IntValue_Range:
			e["dist"] = "range"
			e["lo"], e["hi"], e["dlo"], e["dhi"] = snum(d.Range.Minimum), snum(d.Range.Maximum), snum(d.Range.DeltaMin), snum(d.Range.DeltaMax)
			e["cum"] = d.Range.DeltaMin != 0 || d.Range.DeltaMax != 0
		case *fpb.IntValue_List:
			e["dist"] = "list"
			for _, o := range d.List.Options {
				opts = append(opts, i64(o))
			}
		}
	case *fpb.Value_UintValue:
		e["kind"], e["init"] = "uint", u64(x.UintValue.Value)
		switch d := x.UintValue.Distribution.(type) {
		case *fpb.UintValue_Range:
			e["dist"] = "range"
			e["lo"], e["hi"], e["dlo"], e["dhi"] = limbs(d.Range.Minimum), limbs(d.Range.Maximum), snum(d.Range.DeltaMin), snum(d.Range.DeltaMax)
			e["cum"] = d.Range.DeltaMin != 0 || d.Range.DeltaMax != 0
		case *fpb.UintValue_List:
			e["dist"] = "list"
			for _, o := range d.List.Options {
				opts = append(opts, u64(o))
			}
		}
	case *fpb.Value_DoubleValue:
		e["kind"], e["init"] = "double", f64(x.DoubleValue.Value)
		switch d := x.DoubleValue.Distribution.(type) {
		case *fpb.DoubleValue_Range:
			e["dist"] = "range"
			e["lo"], e["hi"], e["dlo"], e["dhi"] = fnum(d.Range.Minimum), fnum(d.Range.Maximum), fnum(d.Range.DeltaMin), fnum(d.Range.DeltaMax)
			e["cum"] = d.Range.DeltaMin != 0 || d.Range.DeltaMax != 0
		case *fpb.DoubleValue_List:
			e["dist"] = "list"
			for _, o := range d.List.Options {
				opts = append(opts, f64(o))
			}
		}
	case *fpb.Value_StringValue:
		e["kind"], e["init"] = "string", text(x.StringValue.Value)
		if d := x.StringValue.GetList(); d != nil {
			e["dist"] = "list"
			for _, o := range d.Options {
				opts = append(opts, text(o))
			}
		}
	case *fpb.Value_StringListValue:
		e["kind"], e["init"] = "strings", list(x.StringListValue.Value)
		if d := x.StringListValue.GetList(); d != nil {
			e["dist"] = "list"
			for _, o := range d.Options {
				opts = append(opts, text(o))
			}
		}
	case *fpb.Value_BoolValue:
		e["kind"], e["init"] = "bool", flag(x.BoolValue.Value)
		if d := x.BoolValue.GetList(); d != nil {
			e["dist"] = "list"
			for _, o := range d.Options {
				opts = append(opts, flag(o))
			}
		}
	case *fpb.Value_Delete:
		e["kind"] = "delete"
	case *fpb.Value_Sync:
		e["kind"] = "sync"
	}
	e["opts"] = opts
	return e
}

func runEv(vals []*fpb.Value, sync bool) ev {
	cs := []ev{}
	for _, v := range vals {
		cs = append(cs, config(v))
	}
	return ev{"e": "run", "vals": cs, "sync": sync}
}

// path of the i-th configured value; the marker has none.
func pathOf(i int) []string { return []string{"p", strconv.Itoa(i)} }

func index(p []string) int {
	if len(p) == 2 && p[0] == "p" {
		if i, err := strconv.Atoi(p[1]); err == nil {
			return i
		}
	}
	return -1
}

// emitted encodes an emission of the queue.
func emitted(v *fpb.Value, n int) ev {
	ts := snum(v.GetTimestamp().GetTimestamp())
	if _, ok := v.GetValue().(*fpb.Value_Sync); ok && len(v.Path) == 0 {
		return ev{"e": "sync", "ts": ts}
	}
	i := index(v.Path)
	if i < 1 || i > n {
		return ev{"e": "alien"}
	}
	e := ev{"e": "emit", "i": i, "ts": ts, "kind": "none", "v": none}
	switch x := v.GetValue().(type) {
	case *fpb.Value_Delete:
		e["kind"] = "delete"
		return e
	case *fpb.Value_Sync:
		e["kind"] = "sync"
		return e
	case nil:
		return e
	default:
		_ = x
	}
	switch x := queue.ValueOf(v).(type) {
	case int64:
		e["kind"], e["v"] = "int", i64(x)
	case uint64:
		e["kind"], e["v"] = "uint", u64(x)
	case float64:
		e["kind"], e["v"] = "double", f64(x)
	case string:
		e["kind"], e["v"] = "string", text(x)
	case []string:
		e["kind"], e["v"] = "strings", list(x)
	case bool:
		e["kind"], e["v"] = "bool", flag(x)
	}
	return e
}

// received encodes a message of a fake target.
func received(r *gpb.SubscribeResponse, n int) ev {
	switch x := r.GetResponse().(type) {
	case *gpb.SubscribeResponse_SyncResponse:
		return ev{"e": "sync", "ts": []int64{}}
	case *gpb.SubscribeResponse_Update:
		u := x.Update
		ts := snum(u.Timestamp)
		if len(u.Delete) == 1 && len(u.Update) == 0 {
			if i := index(u.Delete[0].GetElement()); i >= 1 && i <= n {
				return ev{"e": "emit", "i": i, "ts": ts, "kind": "delete", "v": none}
			}
			return ev{"e": "alien"}
		}
		if len(u.Update) != 1 || len(u.Delete) != 0 {
			return ev{"e": "alien"}
		}
		i := index(u.Update[0].GetPath().GetElement())
		if i < 1 || i > n {
			return ev{"e": "alien"}
		}
		e := ev{"e": "emit", "i": i, "ts": ts, "kind": "none", "v": none}
		switch v := u.Update[0].GetVal().GetValue().(type) {
		case *gpb.TypedValue_IntVal:
			e["kind"], e["v"] = "int", i64(v.IntVal)
		case *gpb.TypedValue_UintVal:
			e["kind"], e["v"] = "uint", u64(v.UintVal)
		case *gpb.TypedValue_DoubleVal:
			e["kind"], e["v"] = "double", f64(v.DoubleVal)
		case *gpb.TypedValue_StringVal:
			e["kind"], e["v"] = "string", text(v.StringVal)
		case *gpb.TypedValue_BoolVal:
			e["kind"], e["v"] = "bool", flag(v.BoolVal)
		case *gpb.TypedValue_LeaflistVal:
			l := []string{}
			for _, s := range v.LeaflistVal.GetElement() {
				l = append(l, s.GetStringVal())
			}
			e["kind"], e["v"] = "strings", list(l)
		}
		return e
	}
	return ev{"e": "alien"}
}

func digest(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return err.Error()
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:6])
}

func clone(vals []*fpb.Value) []*fpb.Value {
	r := []*fpb.Value{}
	for _, v := range vals {
		r = append(r, proto.Clone(v).(*fpb.Value))
	}
	return r
}

// ---- the queue -------------------------------------------------------------

type rec struct{ evs []ev }

func (r *rec) add(e ...ev) { r.evs = append(r.evs, e...) }
func (r *rec) guard(f func()) {
	defer func() {
		if x := recover(); x != nil {
			r.add(ev{"e": "panic", "msg": fmt.Sprint(x)})
		}
	}()
	f()
}

// drain takes up to max emissions.
func (r *rec) drain(q *queue.UpdateQueue, n, max int, quiet bool) (ds []string) {
	add := func(e ev) {
		if !quiet {
			r.add(e)
		}
	}
	for k := 0; k < max; k++ {
		x, err := q.Next()
		if err != nil {
			add(ev{"e": "err", "msg": err.Error()})
			return append(ds, "err")
		}
		v, ok := x.(*fpb.Value)
		if x == nil || ok && v == nil {
			add(ev{"e": "end"})
			return append(ds, "end")
		}
		if !ok {
			add(ev{"e": "alien"})
			return ds
		}
		add(emitted(v, n))
		ds = append(ds, digest(v))
	}
	add(ev{"e": "cut"})
	return ds
}

// one generates from vals twice.
func (r *rec) one(rnd *rand.Rand, vals []*fpb.Value, seed int64, max int) {
	r.guard(func() {
		for i, v := range vals {
			v.Path = pathOf(i + 1)
		}
		marker := rnd.Intn(4) > 0
		start := func(vs []*fpb.Value, delay bool) *queue.UpdateQueue {
			first := len(vs)
			if rnd.Intn(3) == 0 {
				first = rnd.Intn(len(vs) + 1) // the rest is added
			}
			q := queue.New(delay, seed, vs[:first])
			for _, v := range vs[first:] {
				q.Add(v)
			}
			if marker {
				q.Add(&fpb.Value{Timestamp: &fpb.Timestamp{Timestamp: q.Latest()}, Repeat: 1, Value: &fpb.Value_Sync{Sync: 1}})
			}
			return q
		}
		r.add(runEv(vals, marker))
		orig := clone(vals)
		same := vals
		if rnd.Intn(2) == 0 {
			same = clone(vals)
		}
		q := start(vals, false)
		a := r.drain(q, len(vals), max, false)
		if seed != 0 || ownSeeds(vals) {
			r.add(ev{"e": "twin", "a": a, "b": r.drain(start(same, false), len(vals), max, true)})
			// two at once, taking turns
			p, q := start(clone(orig), false), start(clone(orig), false)
			var x, y []string
			for k := 0; k < max; k++ {
				x = append(x, r.drain(p, len(vals), 1, true)...)
				y = append(y, r.drain(q, len(vals), 1, true)...)
			}
			r.add(ev{"e": "twin", "a": x, "b": y})
		}
	})
}

// ownSeeds says that no value draws from the generator's own source.
func ownSeeds(vals []*fpb.Value) bool {
	for _, v := range vals {
		if v.Seed == 0 {
			return false
		}
	}
	return true
}

// ---- the fake target -------------------------------------------------------

type opts struct {
	seed    int64
	mode    gpb.SubscriptionList_Mode
	random  bool // values in the random generator
	noSync  bool
	noEOF   bool
	delay   bool
	polls   int
	target  string
	max     int
	fixed   []*gpb.SubscribeResponse
	doFixed bool
}

func (o opts) config(vals []*fpb.Value) *fpb.Config {
	c := &fpb.Config{Target: "t", DisableSync: o.noSync, DisableEof: o.noEOF, EnableDelay: o.delay}
	switch {
	case o.doFixed:
		c.Generator = &fpb.Config_Fixed{Fixed: &fpb.FixedGenerator{Responses: o.fixed}}
	case o.random:
		c.Generator = &fpb.Config_Random{Random: &fpb.RandomGenerator{Seed: o.seed, Values: vals}}
	default:
		c.Seed, c.Values = o.seed, vals
	}
	return c
}

func (o opts) request() *gpb.SubscribeRequest {
	s := &gpb.SubscriptionList{Mode: o.mode}
	if o.target != "" {
		s.Prefix = &gpb.Path{Target: o.target}
	}
	return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: s}}
}

// session runs a client of the fake in virtual time; one list of messages per
// generator run, and whether the last one ended.
func session(t *testing.T, o opts, c *fpb.Config) (runs [][]*gpb.SubscribeResponse, over bool, pan string) {
	runs = [][]*gpb.SubscribeResponse{nil}
	synctest.Test(t, func(t *testing.T) {
		ctx, cancel := context.WithCancel(context.Background())
		var mu sync.Mutex
		n := 0
		srv := fakes.NewSubServer(ctx, func(r *gpb.SubscribeResponse) error {
			mu.Lock()
			defer mu.Unlock()
			if n++; n > o.max {
				return errors.New("enough")
			}
			runs[len(runs)-1] = append(runs[len(runs)-1], proto.Clone(r).(*gpb.SubscribeResponse))
			return nil
		})
		done := make(chan struct{})
		cl := fgnmi.NewClient(c)
		go func() {
			defer close(done)
			defer func() {
				if x := recover(); x != nil {
					pan = fmt.Sprint(x)
				}
			}()
			cl.Run(srv)
		}()
		srv.Request(o.request())
		settle := func() {
			if o.delay {
				time.Sleep(10 * time.Hour)
			}
			synctest.Wait()
		}
		settle()
		finished := func() bool {
			select {
			case <-done:
				return true
			default:
				return false
			}
		}
		if o.mode == gpb.SubscriptionList_POLL {
			// Nobody would take a poll off the stream that has ended.
			for i := 0; i < o.polls && !finished(); i++ {
				mu.Lock()
				runs = append(runs, nil)
				mu.Unlock()
				srv.Request(&gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Poll{Poll: &gpb.Poll{}}})
				settle()
			}
		}
		ended := finished()
		over = ended
		mu.Lock()
		if n > o.max {
			over = false
		}
		mu.Unlock()
		cl.Close()
		if o.mode == gpb.SubscriptionList_POLL && !ended {
			// It waits for a poll, after which it sees that it is closed.
			srv.Request(&gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Poll{Poll: &gpb.Poll{}}})
			synctest.Wait()
		}
		cancel()
		srv.CloseSend()
		synctest.Wait()
	})
	return
}

type jval struct {
	TS  int64
	D   []int64
	Rep int32
}

func lines(t *testing.T, env string, f func([]byte)) {
	h, err := os.Open(os.Getenv(env))
	if err != nil {
		t.Fatal(err)
	}
	defer h.Close()
	sc := bufio.NewScanner(h)
	sc.Buffer(nil, 1<<22)
	for sc.Scan() {
		f(sc.Bytes())
	}
}

// ---- configurations --------------------------------------------------------

func pick[T any](rnd *rand.Rand, xs ...T) T { return xs[rnd.Intn(len(xs))] }

func bigInt(rnd *rand.Rand) int64 {
	if rnd.Intn(3) == 0 {
		return int64(rnd.Uint64()) >> rnd.Intn(63)
	}
	return pick[int64](rnd, 0, 1, -1, 5, 10, 100, -100, math.MaxInt32, math.MaxInt64, math.MaxInt64-1, math.MinInt64, math.MinInt64+1, 1<<62, -(1 << 62))
}

func bigUint(rnd *rand.Rand) uint64 {
	if rnd.Intn(3) == 0 {
		return rnd.Uint64() >> rnd.Intn(64)
	}
	return pick[uint64](rnd, 0, 1, 5, 10, 100, math.MaxInt64, 1<<63, 1<<63+1, math.MaxUint64, math.MaxUint64-1)
}

func bigFloat(rnd *rand.Rand) float64 {
	return pick(rnd, 0, 1, -1, 0.5, 1.5, 100, -100, 1e10, 1e-10, 1e300, -1e300, rnd.NormFloat64(), rnd.NormFloat64()*1e6)
}

var words = []string{"", "a", "b", "c", "up", "down", "é", "x y"}

func fill(rnd *rand.Rand, v *fpb.Value, kind string) {
	rd := rnd.Intn(2) == 0
	n := rnd.Intn(5)
	if n == 0 && rnd.Intn(5) > 0 {
		n = 1 + rnd.Intn(3)
	}
	big := rnd.Intn(3) == 0
	dist := rnd.Intn(5) // const, range x2, list x2
	switch kind {
	case "int":
		x := &fpb.IntValue{Value: int64(rnd.Intn(7))}
		if big {
			x.Value = bigInt(rnd)
		}
		switch {
		case dist == 0:
		case dist <= 2:
			r := &fpb.IntRange{Minimum: x.Value - int64(rnd.Intn(5)), Maximum: x.Value + int64(rnd.Intn(8))}
			if big {
				r.Minimum, r.Maximum = bigInt(rnd), bigInt(rnd)
				if r.Minimum > r.Maximum {
					r.Minimum, r.Maximum = r.Maximum, r.Minimum
				}
				x.Value = pick(rnd, r.Minimum, r.Maximum, x.Value, r.Minimum/2+r.Maximum/2)
			}
			if rnd.Intn(2) == 0 {
				r.DeltaMin = int64(rnd.Intn(9) - 4)
				r.DeltaMax = r.DeltaMin + int64(rnd.Intn(4))
				if big && rnd.Intn(2) == 0 {
					r.DeltaMin, r.DeltaMax = bigInt(rnd), bigInt(rnd)
				}
			}
			x.Distribution = &fpb.IntValue_Range{Range: r}
		default:
			l := &fpb.IntList{Random: rd}
			for ; n > 0; n-- {
				l.Options = append(l.Options, bigInt(rnd))
			}
			x.Distribution = &fpb.IntValue_List{List: l}
		}
		v.Value = &fpb.Value_IntValue{IntValue: x}
	case "uint":
		x := &fpb.UintValue{Value: uint64(4 + rnd.Intn(7))}
		if big {
			x.Value = bigUint(rnd)
		}
		switch {
		case dist == 0:
		case dist <= 2:
			r := &fpb.UintRange{Minimum: x.Value - uint64(rnd.Intn(5)), Maximum: x.Value + uint64(rnd.Intn(8))}
			if big {
				r.Minimum, r.Maximum = bigUint(rnd), bigUint(rnd)
				if r.Minimum > r.Maximum {
					r.Minimum, r.Maximum = r.Maximum, r.Minimum
				}
				x.Value = pick(rnd, r.Minimum, r.Maximum, x.Value, r.Minimum/2+r.Maximum/2)
			}
			if rnd.Intn(2) == 0 {
				r.DeltaMin = int64(rnd.Intn(9) - 4)
				r.DeltaMax = r.DeltaMin + int64(rnd.Intn(4))
				if big && rnd.Intn(2) == 0 {
					r.DeltaMin, r.DeltaMax = bigInt(rnd), bigInt(rnd)
				}
			}
			x.Distribution = &fpb.UintValue_Range{Range: r}
		default:
			l := &fpb.UintList{Random: rd}
			for ; n > 0; n-- {
				l.Options = append(l.Options, bigUint(rnd))
			}
			x.Distribution = &fpb.UintValue_List{List: l}
		}
		v.Value = &fpb.Value_UintValue{UintValue: x}
	case "double":
		x := &fpb.DoubleValue{Value: bigFloat(rnd)}
		switch {
		case dist == 0:
		case dist <= 2:
			r := &fpb.DoubleRange{Minimum: x.Value - rnd.Float64()*5, Maximum: x.Value + rnd.Float64()*5}
			if big {
				r.Minimum, r.Maximum = bigFloat(rnd), bigFloat(rnd)
				if r.Minimum > r.Maximum {
					r.Minimum, r.Maximum = r.Maximum, r.Minimum
				}
				x.Value = pick(rnd, r.Minimum, r.Maximum, x.Value, r.Minimum/2+r.Maximum/2)
			}
			if rnd.Intn(2) == 0 {
				r.DeltaMin = rnd.NormFloat64() * 3
				r.DeltaMax = r.DeltaMin + rnd.Float64()*4
				if big && rnd.Intn(2) == 0 {
					r.DeltaMin, r.DeltaMax = bigFloat(rnd), bigFloat(rnd)
				}
			}
			x.Distribution = &fpb.DoubleValue_Range{Range: r}
		default:
			l := &fpb.DoubleList{Random: rd}
			for ; n > 0; n-- {
				l.Options = append(l.Options, bigFloat(rnd))
			}
			x.Distribution = &fpb.DoubleValue_List{List: l}
		}
		v.Value = &fpb.Value_DoubleValue{DoubleValue: x}
	case "string":
		x := &fpb.StringValue{Value: pick(rnd, words...)}
		if dist > 1 {
			l := &fpb.StringList{Random: rd}
			for ; n > 0; n-- {
				l.Options = append(l.Options, pick(rnd, words...))
			}
			x.Distribution = &fpb.StringValue_List{List: l}
		}
		v.Value = &fpb.Value_StringValue{StringValue: x}
	case "strings":
		x := &fpb.StringListValue{}
		for i := rnd.Intn(3); i > 0; i-- {
			x.Value = append(x.Value, pick(rnd, words...))
		}
		if dist > 1 {
			l := &fpb.StringList{Random: rd}
			for ; n > 0; n-- {
				l.Options = append(l.Options, pick(rnd, words...))
			}
			x.Distribution = &fpb.StringListValue_List{List: l}
		}
		v.Value = &fpb.Value_StringListValue{StringListValue: x}
	case "bool":
		x := &fpb.BoolValue{Value: rd}
		if dist > 1 {
			l := &fpb.BoolList{Random: rnd.Intn(2) == 0}
			for ; n > 0; n-- {
				l.Options = append(l.Options, rnd.Intn(2) == 0)
			}
			x.Distribution = &fpb.BoolValue_List{List: l}
		}
		v.Value = &fpb.Value_BoolValue{BoolValue: x}
	case "delete":
		v.Value = &fpb.Value_Delete{Delete: &fpb.DeleteValue{}}
	case "sync":
		v.Value = &fpb.Value_Sync{Sync: uint64(rnd.Intn(2))}
	}
}

var kinds = []string{"int", "uint", "double", "string", "strings", "bool", "delete"}

func randValue(rnd *rand.Rand, wild bool) *fpb.Value {
	v := &fpb.Value{Repeat: int32(rnd.Intn(5))}
	if rnd.Intn(3) == 0 {
		v.Seed = rnd.Int63()
	}
	if rnd.Intn(8) > 0 {
		t := &fpb.Timestamp{Timestamp: int64(rnd.Intn(6)), DeltaMin: int64(rnd.Intn(4))}
		t.DeltaMax = t.DeltaMin + int64(rnd.Intn(4))
		if wild && rnd.Intn(4) == 0 {
			t.Timestamp = bigInt(rnd)
			if rnd.Intn(2) == 0 {
				t.DeltaMin, t.DeltaMax = bigInt(rnd), bigInt(rnd)
			}
			if rnd.Intn(6) > 0 {
				t.Timestamp = max(t.Timestamp&math.MaxInt64, 0)
				t.DeltaMin, t.DeltaMax = t.DeltaMin&math.MaxInt64, t.DeltaMax&math.MaxInt64
				if t.DeltaMin > t.DeltaMax {
					t.DeltaMin, t.DeltaMax = t.DeltaMax, t.DeltaMin
				}
			}
		}
		v.Timestamp = t
	}
	k := pick(rnd, kinds...)
	if wild && rnd.Intn(40) == 0 {
		k = "none"
		if v.Repeat == 1 {
			v.Repeat = 2
		}
	}
	fill(rnd, v, k)
	if wild && rnd.Intn(30) == 0 {
		v.Repeat = -v.Repeat
	}
	return v
}

// wide says that a range, or the distance of two deltas, has 2^63 or more
// members, or that an unsigned range goes beyond the largest signed number:
// the generator panics, see known_findings.txt.
func wide(v *fpb.Value) bool {
	over := func(lo, hi int64) bool { return lo <= hi && hi-lo+1 <= 0 }
	t := v.GetTimestamp()
	if over(t.GetDeltaMin(), t.GetDeltaMax()) {
		return true
	}
	if r := v.GetIntValue().GetRange(); r != nil {
		if r.DeltaMin != 0 || r.DeltaMax != 0 {
			return over(r.DeltaMin, r.DeltaMax)
		}
		return over(r.Minimum, r.Maximum)
	}
	if r := v.GetUintValue().GetRange(); r != nil {
		if r.DeltaMin != 0 || r.DeltaMax != 0 {
			return over(r.DeltaMin, r.DeltaMax)
		}
		return r.Minimum <= r.Maximum && int64(r.Maximum)-int64(r.Minimum)+1 <= 0
	}
	return false
}

// late says that timestamps may run past the largest one within 120 steps: the
// generator continues with negative ones, see known_findings.txt.
func late(v *fpb.Value) bool {
	t := v.GetTimestamp()
	return t.GetTimestamp() >= 1<<62 || t.GetDeltaMax() > (1<<62)/130
}

// known marks a case that may hit a known finding.
func known(vals []*fpb.Value) string {
	s := ""
	for _, v := range vals {
		if wide(v) {
			s += " [wide]"
		}
		if late(v) {
			s += " [late]"
		}
	}
	return s
}

// tameValue avoids the known findings.
func tameValue(rnd *rand.Rand, wild bool) *fpb.Value {
	for {
		if v := randValue(rnd, wild); !wide(v) && !late(v) {
			return v
		}
	}
}

// ---- tests -----------------------------------------------------------------

// TestModel generates from the model's configurations.
func TestModel(t *testing.T) {
	w := tr.New("model", 4)
	rnd := rand.New(rand.NewSource(tr.Seed()))
	n := 0
	r := &rec{}
	lines(t, "VERIF_HIST", func(b []byte) {
		var h struct{ V []jval }
		if err := json.Unmarshal(b, &h); err != nil {
			t.Fatal(err)
		}
		n++
		if n%tr.N(4, 1) != 0 {
			return
		}
		var vals []*fpb.Value
		for i, x := range h.V {
			v := &fpb.Value{Repeat: x.Rep, Timestamp: &fpb.Timestamp{Timestamp: x.TS, DeltaMin: x.D[0], DeltaMax: x.D[1]}}
			for fill(rnd, v, kinds[(n+i)%len(kinds)]); wide(v); {
				fill(rnd, v, kinds[(n+i)%len(kinds)])
			}
			vals = append(vals, v)
		}
		r.one(rnd, vals, int64(n%3), 14)
		if len(r.evs) > 400 {
			w.Case(fmt.Sprintf("model %d", n), r.evs)
			r = &rec{}
		}
	})
	w.Case(fmt.Sprintf("model %d", n), r.evs)
	w.Close()
	tr.Stats("model", ev{"configurations": n, "events": w.Events})
}

func TestRandom(t *testing.T) {
	w := tr.New("random", 5)
	n := tr.N(4000, 40000)
	for i := 0; i < n; i++ {
		rnd := rand.New(rand.NewSource(tr.Seed()*1000003 + int64(i)))
		var vals []*fpb.Value
		k := rnd.Intn(6)
		if rnd.Intn(20) == 0 {
			k = 10 + rnd.Intn(15)
		}
		for ; k > 0; k-- {
			if i%40 == 0 {
				v := randValue(rnd, true)
				for i%80 == 0 && k == 1 && !wide(v) {
					v = randValue(rnd, true)
				}
				vals = append(vals, v)
			} else {
				vals = append(vals, tameValue(rnd, i%2 == 0))
			}
		}
		if rnd.Intn(10) == 0 {
			v := tameValue(rnd, false)
			fill(rnd, v, "sync")
			vals = append(vals, v)
		}
		if rnd.Intn(5) == 0 {
			for _, v := range vals {
				v.Seed = 1 + rnd.Int63()/2
			}
		}
		r := &rec{}
		r.one(rnd, vals, pick[int64](rnd, 0, 1, 2, rnd.Int63(), -5), pick(rnd, 15, 40, 120))
		w.Case(fmt.Sprintf("random %d%s", i, known(vals)), r.evs)
	}
	w.Close()
	tr.Stats("random", ev{"configurations": n, "events": w.Events})
}

// fixedResponses are whatever a user wrote down.
func fixedResponses(rnd *rand.Rand) (r []*gpb.SubscribeResponse) {
	r = make([]*gpb.SubscribeResponse, 0, rnd.Intn(12))
	for i := rnd.Intn(8); i > 0; i-- {
		if rnd.Intn(6) == 0 {
			r = append(r, &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: rnd.Intn(2) == 0}})
			continue
		}
		n := &gpb.Notification{Timestamp: int64(rnd.Intn(100))}
		for j := rnd.Intn(3); j > 0; j-- {
			n.Update = append(n.Update, &gpb.Update{Path: &gpb.Path{Elem: []*gpb.PathElem{{Name: pick(rnd, words...)}}}, Val: &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: int64(i)}}})
		}
		if rnd.Intn(3) == 0 {
			n.Delete = append(n.Delete, &gpb.Path{Element: []string{"a", "b"}})
		}
		r = append(r, &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: n}})
	}
	return r
}

// TestAgent runs clients of the fake target.
func TestAgent(t *testing.T) {
	w := tr.New("agent", 3)
	n := tr.N(1500, 12000)
	for i := 0; i < n; i++ {
		rnd := rand.New(rand.NewSource(tr.Seed()*7000003 + int64(i)))
		o := opts{seed: pick[int64](rnd, 0, 1, 7, rnd.Int63()), random: i%50 == 0, noSync: rnd.Intn(5) == 0, noEOF: rnd.Intn(4) == 0,
			delay: rnd.Intn(3) == 0, max: 60, mode: pick(rnd, gpb.SubscriptionList_STREAM, gpb.SubscriptionList_ONCE), target: pick(rnd, "", "t", "other")}
		r := &rec{}
		if rnd.Intn(6) == 0 {
			o.doFixed = true
			o.fixed = fixedResponses(rnd)
			if rnd.Intn(3) == 0 {
				o.mode, o.noEOF, o.polls = gpb.SubscriptionList_POLL, false, rnd.Intn(3)
			}
			pristine := make([]*gpb.SubscribeResponse, len(o.fixed))
			for k, x := range o.fixed {
				pristine[k] = proto.Clone(x).(*gpb.SubscribeResponse)
			}
			c := o.config(nil)
			for rep := 0; rep < 2; rep++ { // twice from one configuration
				want := []string{}
				for _, x := range pristine {
					x = proto.Clone(x).(*gpb.SubscribeResponse)
					if u := x.GetUpdate(); u != nil && o.target != "" {
						u.Prefix = &gpb.Path{Target: o.target}
					}
					want = append(want, digest(x))
				}
				runs, _, pan := session(t, o, c)
				for _, run := range runs {
					got := []string{}
					for k, x := range run {
						if k == len(run)-1 && !o.noSync && x.GetSyncResponse() && x.GetUpdate() == nil {
							got = append(got, "sync")
						} else {
							got = append(got, digest(x))
						}
					}
					r.add(ev{"e": "fixed", "want": want, "sync": !o.noSync, "r": got})
				}
				if pan != "" {
					r.add(ev{"e": "panic", "msg": pan})
				}
				o.target = pick(rnd, "", "t", "other", o.target)
			}
			w.Case(fmt.Sprintf("fixed %d %+v", i, o.mode), r.evs)
			continue
		}
		var vals []*fpb.Value
		finite := true
		for k := rnd.Intn(5); k > 0; k-- {
			v := tameValue(rnd, !o.delay && i%3 == 0)
			v.Path = pathOf(len(vals) + 1)
			if v.Value == nil {
				continue
			}
			vals = append(vals, v)
			finite = finite && v.Repeat > 0
		}
		if finite && rnd.Intn(2) == 0 {
			o.mode, o.noEOF, o.polls, o.max = gpb.SubscriptionList_POLL, false, rnd.Intn(3), 1000
		}
		c := o.config(vals)
		seqs := []string{}
		for rep := 0; rep < 2; rep++ {
			head := runEv(vals, !o.noSync)
			runs, over, pan := session(t, o, c)
			for k, run := range runs {
				r.add(head)
				ds := ""
				for _, m := range run {
					r.add(received(m, len(vals)))
					ds += digest(m)
				}
				seqs = append(seqs, ds)
				switch {
				case pan != "":
					r.add(ev{"e": "panic", "msg": pan})
				case over && k == len(runs)-1, finite && (o.mode == gpb.SubscriptionList_POLL || o.noEOF):
					// the stream is over, or it is drained and held open
					r.add(ev{"e": "over"})
				default:
					r.add(ev{"e": "cut"})
				}
			}
		}
		if o.seed != 0 || ownSeeds(vals) {
			for _, s := range seqs[1:] {
				r.add(ev{"e": "twin", "a": seqs[0], "b": s})
			}
		}
		k := ""
		if o.random && len(vals) > 0 {
			k = " [random]"
		}
		w.Case(fmt.Sprintf("agent %d %+v%s", i, o.mode, k), r.evs)
	}
	w.Close()
	tr.Stats("agent", ev{"sessions": n * 2, "events": w.Events})
}

// TestServer subscribes to fake targets over the network.
func TestServer(t *testing.T) {
	w := tr.New("server", 1)
	n := tr.N(12, 80)
	for i := 0; i < n; i++ {
		rnd := rand.New(rand.NewSource(tr.Seed()*90001 + int64(i)))
		var vals []*fpb.Value
		for k := 1 + rnd.Intn(5); k > 0; k-- {
			v := tameValue(rnd, false)
			v.Path = pathOf(len(vals) + 1)
			v.Repeat = 1 + v.Repeat
			vals = append(vals, v)
		}
		o := opts{seed: 1 + rnd.Int63(), target: "t"}
		c := o.config(vals)
		a, err := fgnmi.New(c, nil)
		if err != nil {
			t.Fatal(err)
		}
		r := &rec{}
		heads := runEv(vals, true)
		seqs := make([]string, 3)
		parts := make([][]ev, 3)
		var wg sync.WaitGroup
		for s := 0; s < 3; s++ { // several subscribers of one target
			wg.Add(1)
			go func() {
				defer wg.Done()
				conn, err := grpc.NewClient(a.Address(), grpc.WithTransportCredentials(insecure.NewCredentials()))
				if err != nil {
					panic(err)
				}
				defer conn.Close()
				ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
				defer cancel()
				sub, err := gpb.NewGNMIClient(conn).Subscribe(ctx)
				if err != nil {
					panic(err)
				}
				sub.Send(o.request())
				evs := []ev{heads}
				for {
					m, err := sub.Recv()
					if err == io.EOF {
						evs = append(evs, ev{"e": "over"})
						break
					}
					if err != nil {
						evs = append(evs, ev{"e": "stuck", "msg": err.Error()})
						break
					}
					evs = append(evs, received(m, len(vals)))
					seqs[s] += digest(m)
				}
				parts[s] = evs
			}()
		}
		wg.Wait()
		a.Close()
		for s := range parts {
			r.add(parts[s]...)
			r.add(ev{"e": "twin", "a": seqs[0], "b": seqs[s]})
		}
		w.Case(fmt.Sprintf("server %d", i), r.evs)
	}
	w.Close()
	tr.Stats("server", ev{"targets": n, "events": w.Events})
}
