// Package codech records what path indexing, joining, query conversion,
// scalar conversion and value equality return.
package codech

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/path"
	gpb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/value"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"verif/harness/tr"
)

type ev = tr.Ev

// ---- paths -----------------------------------------------------------------

type key struct{ c, v string }
type elem struct {
	n string
	k []key
}
type gpath struct {
	isNil bool
	t, o  string
	el    []elem
	old   []string
}

// build makes the path; keys are inserted in a random order.
func (p gpath) build(rnd *rand.Rand) *gpb.Path {
	if p.isNil {
		return nil
	}
	r := &gpb.Path{Target: p.t, Origin: p.o}
	for _, e := range p.el {
		pe := &gpb.PathElem{Name: e.n}
		if len(e.k) > 0 || rnd.Intn(2) == 0 {
			pe.Key = make(map[string]string, rnd.Intn(20))
		}
		for _, i := range rnd.Perm(len(e.k)) {
			pe.Key[e.k[i].c] = e.k[i].v
		}
		// Insertions and removals shift where a map's entries are.
		for i := rnd.Intn(6); i > 0; i-- {
			if pe.Key == nil {
				break
			}
			k := fmt.Sprint("\x01tmp", i)
			pe.Key[k] = ""
			delete(pe.Key, k)
		}
		r.Elem = append(r.Elem, pe)
	}
	r.Element = append(r.Element, p.old...)
	return r
}

func codes(s string) []int {
	r := []int{}
	for _, b := range []byte(s) {
		r = append(r, int(b))
	}
	return r
}

func (p gpath) ev() ev {
	el := []ev{}
	for _, e := range p.el {
		ks := []ev{}
		for _, k := range e.k {
			ks = append(ks, ev{"c": codes(k.c), "v": k.v})
		}
		el = append(el, ev{"n": e.n, "k": ks})
	}
	return ev{"t": p.t, "o": p.o, "el": el, "old": append([]string{}, p.old...)}
}

func (p gpath) maxKeys() int {
	n := 0
	for _, e := range p.el {
		n = max(n, len(e.k))
	}
	return n
}

// variants are many paths equal to p.
func (p gpath) variants(rnd *rand.Rand, n int) []*gpb.Path {
	r := []*gpb.Path{}
	for i := 0; i < n; i++ {
		x := p.build(rnd)
		switch {
		case x == nil:
		case i%4 == 1:
			x = proto.Clone(x).(*gpb.Path)
		case i%4 == 2:
			b, err := proto.Marshal(x)
			if err != nil {
				panic(err)
			}
			x = &gpb.Path{}
			if err := proto.Unmarshal(b, x); err != nil {
				panic(err)
			}
		}
		r = append(r, x)
	}
	return r
}

// distinct results; they are encoded only when the case is over, so that a
// result changed by a later call shows.
type results struct{ all [][]string }

func (r *results) add(s []string) { r.all = append(r.all, s) }
func (r *results) distinct() [][]string {
	seen := map[string]bool{}
	out := [][]string{}
	for _, s := range r.all {
		k := fmt.Sprintf("%q", s)
		if !seen[k] {
			seen[k] = true
			out = append(out, append([]string{}, s...))
		}
	}
	return out
}

type rec struct {
	mu  sync.Mutex
	evs []ev
	// late events are encoded at the end
	late []func() ev
}

func (r *rec) add(e ev) { r.mu.Lock(); r.evs = append(r.evs, e); r.mu.Unlock() }

func (r *rec) later(f func() ev) { r.mu.Lock(); r.late = append(r.late, f); r.mu.Unlock() }

func (r *rec) events() []ev {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, f := range r.late {
		r.evs = append(r.evs, f())
	}
	r.late = nil
	return r.evs
}

func (r *rec) guard(what string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			r.add(ev{"e": "panic", "what": what, "msg": fmt.Sprint(x)})
		}
	}()
	f()
}

func reps(p gpath) int {
	switch k := p.maxKeys(); {
	case k < 2:
		return 4
	case k < 4:
		return 12
	}
	return 16
}

func (r *rec) idx(rnd *rand.Rand, p gpath) {
	r.guard("ToStrings", func() {
		for _, pre := range []bool{false, true} {
			res := &results{}
			for _, x := range p.variants(rnd, reps(p)) {
				res.add(path.ToStrings(x, pre))
				res.add(path.ToStrings(x, pre))
			}
			pre := pre
			if p.isNil {
				r.later(func() ev { return ev{"e": "idxnil", "r": flat(res.distinct())} })
				continue
			}
			r.later(func() ev { return ev{"e": "idx", "p": p.ev(), "pre": pre, "r": res.distinct()} })
		}
	})
}

func flat(s [][]string) []string {
	r := []string{}
	for _, x := range s {
		r = append(r, x...)
	}
	return r
}

func (r *rec) join(rnd *rand.Rand, a, b gpath) {
	r.guard("CompletePath", func() {
		n := max(reps(a), reps(b))
		as, bs := a.variants(rnd, n), b.variants(rnd, n)
		res := &results{}
		errs := 0
		for i := range as {
			for rep := 0; rep < 2; rep++ {
				s, err := path.CompletePath(as[i], bs[i])
				if err != nil {
					errs++
					continue
				}
				res.add(s)
			}
		}
		r.later(func() ev {
			out := []ev{}
			if errs > 0 {
				out = append(out, ev{"err": true, "r": []string{}})
			}
			for _, s := range res.distinct() {
				out = append(out, ev{"err": false, "r": s})
			}
			return ev{"e": "join", "a": a.ev(), "b": b.ev(), "out": out}
		})
	})
}

// ---- queries ---------------------------------------------------------------

// wireConn captures what a client sends.
type capture struct {
	grpc.ClientStream
	sent *gpb.SubscribeRequest
}

func (c *capture) SendMsg(m any) error {
	b, err := proto.Marshal(m.(proto.Message))
	if err != nil {
		return err
	}
	c.sent = &gpb.SubscribeRequest{}
	return proto.Unmarshal(b, c.sent)
}
func (c *capture) RecvMsg(any) error        { return io.EOF }
func (c *capture) Context() context.Context { return context.Background() }
func (c *capture) CloseSend() error         { return nil }

var conn *grpc.ClientConn
var last *capture

func send(q client.Query) (*gpb.SubscribeRequest, error) {
	if conn == nil {
		var err error
		conn, err = grpc.NewClient("passthrough:///x", grpc.WithTransportCredentials(insecure.NewCredentials()),
			grpc.WithStreamInterceptor(func(context.Context, *grpc.StreamDesc, *grpc.ClientConn, string, grpc.Streamer, ...grpc.CallOption) (grpc.ClientStream, error) {
				last = &capture{}
				return last, nil
			}))
		if err != nil {
			panic(err)
		}
	}
	ctx := context.Background()
	c, err := gclient.NewFromConn(ctx, conn, client.Destination{Addrs: []string{"x"}, Target: q.Target, Timeout: time.Minute})
	if err != nil {
		panic(err)
	}
	q.NotificationHandler = func(client.Notification) error { return nil }
	last = nil
	if err := c.Subscribe(ctx, q); err != nil {
		return nil, err
	}
	return last.sent, nil
}

func overWire(q client.Query) (*gpb.SubscribeRequest, error) {
	sr, err := gclient.ToSubscribeRequest(q)
	if err != nil {
		return nil, err
	}
	b, err := proto.Marshal(sr)
	if err != nil {
		return nil, err
	}
	x := &gpb.SubscribeRequest{}
	return x, proto.Unmarshal(b, x)
}

// queries sends all of qs in one request, twice, and indexes what arrives.
func (r *rec) queries(ty client.Type, target string, qs [][]string, via bool) {
	r.guard("query", func() {
		q := client.Query{Addrs: []string{"x"}, Target: target, Type: ty}
		for _, x := range qs {
			q.Queries = append(q.Queries, append(client.Path{}, x...))
		}
		res := make([]results, len(qs))
		bad := false
		do := overWire
		if via {
			do = send
		}
		for rep := 0; rep < 2; rep++ {
			sr, err := do(q)
			subs := sr.GetSubscribe().GetSubscription()
			if err != nil || len(subs) != len(qs) {
				bad = true
				break
			}
			pre := sr.GetSubscribe().GetPrefix()
			for i := range qs {
				res[i].add(path.ToStrings(subs[i].GetPath(), false))
				s, err := path.CompletePath(pre, subs[i].GetPath())
				if err != nil {
					s = []string{"error: " + err.Error()}
				}
				res[i].add(s)
			}
		}
		if bad && len(qs) > 1 {
			// find which
			for _, x := range qs {
				r.queries(ty, target, [][]string{x}, via)
			}
			return
		}
		for i := range qs {
			q := append([]string{}, qs[i]...)
			res := &res[i]
			r.later(func() ev {
				return ev{"e": "query", "q": q, "via": via, "err": bad, "r": res.distinct()}
			})
		}
	})
}

// ---- values ----------------------------------------------------------------

func can(k, s string, l ...ev) ev {
	if l == nil {
		l = []ev{}
	}
	return ev{"k": k, "s": s, "l": l}
}

func f64(f float64) string {
	if f == 0 {
		f = 0 // -0 is 0
		return "0"
	}
	if f != f {
		return "nan" + strconv.FormatUint(math.Float64bits(f), 16)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// dec is the number digits/10^precision, normalized.
func dec(d *gpb.Decimal64) string {
	n, p := d.GetDigits(), d.GetPrecision()
	if n == 0 {
		return "0"
	}
	for p > 0 && n%10 == 0 {
		n, p = n/10, p-1
	}
	return fmt.Sprintf("%d/%d", n, p)
}

func canon(v *gpb.TypedValue) ev {
	switch x := v.GetValue().(type) {
	case nil:
		return can("nil", "")
	case *gpb.TypedValue_StringVal:
		return can("string", x.StringVal)
	case *gpb.TypedValue_IntVal:
		return can("int", strconv.FormatInt(x.IntVal, 10))
	case *gpb.TypedValue_UintVal:
		return can("uint", strconv.FormatUint(x.UintVal, 10))
	case *gpb.TypedValue_BoolVal:
		return can("bool", fmt.Sprint(x.BoolVal))
	case *gpb.TypedValue_BytesVal:
		return can("bytes", hex.EncodeToString(x.BytesVal))
	case *gpb.TypedValue_FloatVal:
		return can("float", f64(float64(x.FloatVal)))
	case *gpb.TypedValue_DoubleVal:
		return can("double", f64(x.DoubleVal))
	case *gpb.TypedValue_DecimalVal:
		return can("decimal", dec(x.DecimalVal))
	case *gpb.TypedValue_LeaflistVal:
		l := []ev{}
		for _, e := range x.LeaflistVal.GetElement() {
			l = append(l, canon(e))
		}
		return can("list", "", l...)
	case *gpb.TypedValue_AnyVal:
		return can("any", x.AnyVal.GetTypeUrl()+":"+hex.EncodeToString(x.AnyVal.GetValue()))
	case *gpb.TypedValue_JsonVal:
		return can("json", string(x.JsonVal))
	case *gpb.TypedValue_JsonIetfVal:
		return can("jsonietf", string(x.JsonIetfVal))
	case *gpb.TypedValue_AsciiVal:
		return can("ascii", x.AsciiVal)
	case *gpb.TypedValue_ProtoBytes:
		return can("proto", hex.EncodeToString(x.ProtoBytes))
	}
	panic(fmt.Sprintf("unknown value %T", v.GetValue()))
}

func str(s string) *gpb.TypedValue {
	return &gpb.TypedValue{Value: &gpb.TypedValue_StringVal{StringVal: s}}
}
func integer(i int64) *gpb.TypedValue {
	return &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: i}}
}
func uinteger(i uint64) *gpb.TypedValue {
	return &gpb.TypedValue{Value: &gpb.TypedValue_UintVal{UintVal: i}}
}
func boolean(b bool) *gpb.TypedValue {
	return &gpb.TypedValue{Value: &gpb.TypedValue_BoolVal{BoolVal: b}}
}
func byt(b []byte) *gpb.TypedValue {
	return &gpb.TypedValue{Value: &gpb.TypedValue_BytesVal{BytesVal: b}}
}
func double(f float64) *gpb.TypedValue {
	return &gpb.TypedValue{Value: &gpb.TypedValue_DoubleVal{DoubleVal: f}}
}
func float(f float32) *gpb.TypedValue {
	return &gpb.TypedValue{Value: &gpb.TypedValue_FloatVal{FloatVal: f}}
}
func decimal(d int64, p uint32) *gpb.TypedValue {
	return &gpb.TypedValue{Value: &gpb.TypedValue_DecimalVal{DecimalVal: &gpb.Decimal64{Digits: d, Precision: p}}}
}
func list(l ...*gpb.TypedValue) *gpb.TypedValue {
	return &gpb.TypedValue{Value: &gpb.TypedValue_LeaflistVal{LeaflistVal: &gpb.ScalarArray{Element: l}}}
}

// atoms are values of every arm, boundary ones included.
func atoms() []*gpb.TypedValue {
	r := []*gpb.TypedValue{nil, {}}
	for _, s := range []string{"", "0", "1", "a", "b", "true", "é", "a\x00", "aa", strings.Repeat("x", 300)} {
		r = append(r, str(s), byt([]byte(s)),
			&gpb.TypedValue{Value: &gpb.TypedValue_AsciiVal{AsciiVal: s}},
			&gpb.TypedValue{Value: &gpb.TypedValue_JsonVal{JsonVal: []byte(s)}},
			&gpb.TypedValue{Value: &gpb.TypedValue_JsonIetfVal{JsonIetfVal: []byte(s)}},
			&gpb.TypedValue{Value: &gpb.TypedValue_ProtoBytes{ProtoBytes: []byte(s)}})
	}
	r = append(r, byt(nil), byt([]byte{0xff}), byt([]byte{0xfe}))
	for _, i := range []int64{0, 1, -1, 2, 255, 256, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64} {
		r = append(r, integer(i), uinteger(uint64(i)), double(float64(i)), float(float32(i)), decimal(i, 0), decimal(i, 1), decimal(i, 3))
	}
	for _, f := range []float64{0.1, math.Nextafter(0.1, 1), -0.1, 1.5, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-8, 2e-8, 1 + 1e-9} {
		r = append(r, double(f), float(float32(f)))
	}
	r = append(r, decimal(10, 1), decimal(100, 2), decimal(1, math.MaxUint32), decimal(10, 0), decimal(100, 1),
		&gpb.TypedValue{Value: &gpb.TypedValue_DecimalVal{}},
		boolean(true), boolean(false),
		&gpb.TypedValue{Value: &gpb.TypedValue_AnyVal{}},
		&gpb.TypedValue{Value: &gpb.TypedValue_AnyVal{AnyVal: &anypb.Any{TypeUrl: "a", Value: []byte("b")}}},
		&gpb.TypedValue{Value: &gpb.TypedValue_AnyVal{AnyVal: &anypb.Any{TypeUrl: "a", Value: []byte("c")}}},
		&gpb.TypedValue{Value: &gpb.TypedValue_LeaflistVal{}},
		list(), list(nil), list(&gpb.TypedValue{}), list(str("a")), list(str("a"), str("b")), list(str("b"), str("a")),
		list(str("a"), str("b"), str("a")), list(str("ab")), list(str(""), str("ab")), list(integer(1)), list(uinteger(1)), list(double(1)),
		list(list()), list(list(str("a"))), list(list(str("a")), list()), list(str("a"), nil), list(nil, str("a")), list(byt([]byte("a"))),
		list(&gpb.TypedValue{Value: &gpb.TypedValue_JsonVal{JsonVal: []byte("1")}}), list(boolean(true)), list(decimal(1, 0)), list(decimal(1, 1)), list(float(1)))
	return r
}

func (r *rec) eq(a, b *gpb.TypedValue) {
	r.guard("Equal", func() {
		ab, ba := value.Equal(a, b), value.Equal(b, a)
		r.add(ev{"e": "eq", "a": canon(a), "b": canon(b), "ab": ab, "ba": ba})
	})
}

// number of a float at the precision of a float32
func f32(f float64) string {
	if g := float64(float32(f)); !math.IsInf(g, 0) && math.Abs(g) > 1e-30 {
		f = g
	}
	if f != f {
		return "nan"
	}
	return f64(f)
}

// canonGo is the number, text, bytes, flag or list that a Go scalar is.
func canonGo(i any) (e ev, ok bool) {
	switch x := i.(type) {
	case nil:
		return can("nil", ""), false
	case []byte:
		return can("bytes", hex.EncodeToString(x)), true
	}
	v := reflect.ValueOf(i)
	switch v.Kind() {
	case reflect.String:
		return can("string", hex.EncodeToString([]byte(v.String()))), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return can("int", strconv.FormatInt(v.Int(), 10)), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return can("uint", strconv.FormatUint(v.Uint(), 10)), true
	case reflect.Float32, reflect.Float64:
		return can("float", f32(v.Float())), true
	case reflect.Bool:
		return can("bool", fmt.Sprint(v.Bool())), true
	case reflect.Slice:
		l := []ev{}
		ok := true
		for j := 0; j < v.Len(); j++ {
			c, k := canonGo(v.Index(j).Interface())
			l = append(l, c)
			ok = ok && k
		}
		return can("list", "", l...), ok
	}
	return can("unknown", fmt.Sprintf("%T", i)), false
}

func supported(i any) bool {
	switch x := i.(type) {
	case string:
		return strings.ToValidUTF8(x, "") == x
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, float32, float64, bool, []byte:
		return true
	case []string:
		for _, s := range x {
			if strings.ToValidUTF8(s, "") != s {
				return false
			}
		}
		return true
	case []any:
		for _, e := range x {
			if !supported(e) {
				return false
			}
		}
		return true
	}
	return false
}

func (r *rec) scalar(i any) {
	r.guard("FromScalar", func() {
		v, _ := canonGo(i)
		e := ev{"e": "scalar", "v": v, "supported": supported(i), "type": fmt.Sprintf("%T", i)}
		tv, err := value.FromScalar(i)
		e["err"] = err != nil
		e["back"] = false
		e["r"] = can("nil", "")
		if err == nil {
			// over the wire as well
			for rep := 0; rep < 2; rep++ {
				o, err := value.ToScalar(tv)
				if err != nil {
					e["back"] = false
					break
				}
				c, _ := canonGo(o)
				if rep == 1 && !reflect.DeepEqual(c, e["r"]) {
					e["back"] = false
				} else {
					e["back"] = true
				}
				e["r"] = c
				b, err := proto.Marshal(tv)
				if err != nil {
					if supported(i) {
						e["back"] = false
					}
					break
				}
				tv = &gpb.TypedValue{}
				if err := proto.Unmarshal(b, tv); err != nil {
					panic(err)
				}
			}
		}
		if !supported(i) && err == nil {
			// accepted though it need not be: only that it returned counts
			e = ev{"e": "ok", "what": fmt.Sprintf("%T", i)}
		}
		r.add(e)
	})
}

func (r *rec) toScalar(v *gpb.TypedValue) {
	r.guard("ToScalar", func() {
		value.ToScalar(v)
		r.add(ev{"e": "ok", "what": "ToScalar"})
	})
}

// ---- cases of the models ---------------------------------------------------

type jkey struct {
	C []int `json:"c"`
	V any   `json:"v"`
}
type jelem struct {
	N string `json:"n"`
	K []jkey `json:"k"`
}
type jpath struct {
	T, O string
	El   []jelem
	Old  []string
}

func bytesOf(c []int) string {
	var b bytes.Buffer
	for _, x := range c {
		b.WriteByte(byte(x))
	}
	return b.String()
}

func (j jpath) path() gpath {
	p := gpath{t: j.T, o: j.O, old: j.Old}
	for _, e := range j.El {
		x := elem{n: e.N}
		for _, k := range e.K {
			x.k = append(x.k, key{bytesOf(k.C), fmt.Sprint(k.V)})
		}
		p.el = append(p.el, x)
	}
	return p
}

type jval struct {
	K, S string
	L    []jval
}

func (j jval) value() *gpb.TypedValue {
	switch j.K {
	case "nil":
		return nil
	case "any":
		return &gpb.TypedValue{Value: &gpb.TypedValue_AnyVal{AnyVal: &anypb.Any{TypeUrl: j.S}}}
	case "json":
		return &gpb.TypedValue{Value: &gpb.TypedValue_JsonVal{JsonVal: []byte(j.S)}}
	case "jsonietf":
		return &gpb.TypedValue{Value: &gpb.TypedValue_JsonIetfVal{JsonIetfVal: []byte(j.S)}}
	case "ascii":
		return &gpb.TypedValue{Value: &gpb.TypedValue_AsciiVal{AsciiVal: j.S}}
	case "proto":
		return &gpb.TypedValue{Value: &gpb.TypedValue_ProtoBytes{ProtoBytes: []byte(j.S)}}
	case "string":
		return str(j.S)
	case "bytes":
		return byt([]byte(j.S))
	case "bool":
		return boolean(j.S == "true")
	case "decimal":
		var d int64
		var p uint32
		fmt.Sscanf(j.S, "%d/%d", &d, &p)
		return decimal(d, p)
	case "list":
		l := []*gpb.TypedValue{}
		for _, e := range j.L {
			l = append(l, e.value())
		}
		return list(l...)
	}
	n, err := strconv.ParseInt(j.S, 10, 64)
	if err != nil {
		panic(err)
	}
	switch j.K {
	case "int":
		return integer(n)
	case "uint":
		return uinteger(uint64(n))
	case "float":
		return float(float32(n))
	case "double":
		return double(float64(n))
	}
	panic(j.K)
}

func lines(t *testing.T, env string, f func([]byte)) {
	p := os.Getenv(env)
	if p == "" {
		t.Fatal(env + " not set")
	}
	h, err := os.Open(p)
	if err != nil {
		t.Fatal(err)
	}
	defer h.Close()
	sc := bufio.NewScanner(h)
	sc.Buffer(nil, 1<<22)
	for sc.Scan() {
		f(sc.Bytes())
	}
}

func mustJSON(t *testing.T, b []byte, v any) {
	if err := json.Unmarshal(b, v); err != nil {
		t.Fatalf("%s: %v", b, err)
	}
}

// batch writes cases of many events.
type batch struct {
	w    *tr.W
	name string
	r    *rec
	n    int
}

func (b *batch) rec() *rec {
	if b.r == nil {
		b.r = &rec{}
	}
	b.n++
	if b.n%64 == 0 {
		b.flush()
		b.r = &rec{}
	}
	return b.r
}

func (b *batch) flush() {
	if b.r != nil {
		b.w.Case(fmt.Sprintf("%s %d", b.name, b.n), b.r.events())
		b.r = nil
	}
}

func TestModel(t *testing.T) {
	rnd := rand.New(rand.NewSource(tr.Seed()))
	w := tr.New("model", tr.N(4, 6))
	nj, nq, nv := 0, 0, 0
	b := &batch{w: w, name: "join"}
	lines(t, "VERIF_HIST_JOIN", func(l []byte) {
		var x struct{ A, B jpath }
		mustJSON(t, l, &x)
		r := b.rec()
		r.join(rnd, x.A.path(), x.B.path())
		if nj%4 == 0 {
			r.idx(rnd, x.A.path())
			r.idx(rnd, x.B.path())
		}
		nj++
	})
	b.flush()
	b = &batch{w: w, name: "query"}
	var qs [][]string
	send := func() {
		if len(qs) > 0 {
			b.rec().queries([]client.Type{client.Once, client.Stream, client.Poll}[nq%3], "t", qs, nq%2 == 0)
			qs = nil
		}
	}
	lines(t, "VERIF_HIST_QUERY", func(l []byte) {
		var x [][]int
		mustJSON(t, l, &x)
		q := []string{}
		for _, e := range x {
			q = append(q, bytesOf(e))
		}
		qs = append(qs, q)
		nq++
		if len(qs) == 7 {
			send()
		}
	})
	send()
	b.flush()
	b = &batch{w: w, name: "values"}
	lines(t, "VERIF_HIST_VALUES", func(l []byte) {
		var x struct{ A, B jval }
		mustJSON(t, l, &x)
		b.rec().eq(x.A.value(), x.B.value())
		nv++
	})
	b.flush()
	w.Close()
	tr.Stats("model", ev{"joins": nj, "queries": nq, "pairs": nv, "events": w.Events})
}

// ---- random cases ----------------------------------------------------------

var texts = []string{"", "a", "b", "aa", "ab", "A", "Z", "a/b", "/", "*", "...", "é", "日本", "\u0000", " ", "a b", "\\", "a\\", "\\/", "=", "k=v", "0", "10", "9", "-", "_", "a\nb", "\"", "~", "\U0001F600", "z", "openconfig", "meta", "name", "interface"}

func text(rnd *rand.Rand) string {
	switch rnd.Intn(4) {
	case 0:
		n := rnd.Intn(6)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(texts[rnd.Intn(len(texts))])
		}
		return b.String()
	case 1:
		var b strings.Builder
		for i := rnd.Intn(8); i >= 0; i-- {
			for {
				c := rune(rnd.Intn([]int{0x80, 0x800, 0xd000, 0x11000}[rnd.Intn(4)]))
				if c < 0xd800 {
					b.WriteRune(c)
					break
				}
			}
		}
		return b.String()
	}
	return texts[rnd.Intn(len(texts))]
}

func randPath(rnd *rand.Rand) gpath {
	if rnd.Intn(30) == 0 {
		return gpath{isNil: true}
	}
	p := gpath{}
	if rnd.Intn(2) == 0 {
		p.t = text(rnd)
	}
	if rnd.Intn(3) == 0 {
		p.o = text(rnd)
	}
	n := rnd.Intn(5)
	if rnd.Intn(12) == 0 {
		n = 15 + rnd.Intn(15) // longer than any path of a model
	}
	for i := 0; i < n; i++ {
		e := elem{n: text(rnd)}
		k := rnd.Intn(4)
		if rnd.Intn(10) == 0 {
			k = 5 + rnd.Intn(12)
		}
		seen := map[string]bool{}
		for ; k > 0; k-- {
			c := text(rnd)
			if !seen[c] {
				seen[c] = true
				e.k = append(e.k, key{c, text(rnd)})
			}
		}
		p.el = append(p.el, e)
	}
	if rnd.Intn(4) == 0 {
		for i := rnd.Intn(4); i > 0; i-- {
			p.old = append(p.old, text(rnd))
		}
		if rnd.Intn(12) == 0 {
			for i := 25; i > 0; i-- {
				p.old = append(p.old, text(rnd))
			}
		}
	}
	return p
}

func randVal(rnd *rand.Rand, at []*gpb.TypedValue, d int) *gpb.TypedValue {
	if d > 0 && rnd.Intn(3) == 0 {
		l := []*gpb.TypedValue{}
		for i := rnd.Intn(4); i > 0; i-- {
			l = append(l, randVal(rnd, at, d-1))
		}
		return list(l...)
	}
	switch rnd.Intn(4) {
	case 0:
		switch rnd.Intn(6) {
		case 0:
			return str(text(rnd))
		case 1:
			return byt([]byte(text(rnd)))
		case 2:
			return integer(int64(rnd.Uint64()))
		case 3:
			return uinteger(rnd.Uint64())
		case 4:
			return double(math.Float64frombits(rnd.Uint64()))
		default:
			return decimal(int64(rnd.Uint64())>>rnd.Intn(60), uint32(rnd.Intn(20)))
		}
	}
	return at[rnd.Intn(len(at))]
}

// near is a value a little different from v, or equal to it.
func near(rnd *rand.Rand, v *gpb.TypedValue, at []*gpb.TypedValue) *gpb.TypedValue {
	if v == nil {
		return &gpb.TypedValue{}
	}
	c := proto.Clone(v).(*gpb.TypedValue)
	switch x := c.Value.(type) {
	case *gpb.TypedValue_LeaflistVal:
		l := x.LeaflistVal.GetElement()
		switch {
		case x.LeaflistVal == nil || rnd.Intn(4) == 0:
		case len(l) > 0 && rnd.Intn(3) == 0:
			x.LeaflistVal.Element = l[:len(l)-1]
		case len(l) > 0 && rnd.Intn(2) == 0:
			i := rnd.Intn(len(l))
			l[i] = near(rnd, l[i], at)
		case len(l) > 1 && rnd.Intn(2) == 0:
			l[0], l[1] = l[1], l[0]
		default:
			x.LeaflistVal.Element = append(l, at[rnd.Intn(len(at))])
		}
	case *gpb.TypedValue_IntVal:
		x.IntVal ^= 1 << rnd.Intn(64)
	case *gpb.TypedValue_UintVal:
		x.UintVal ^= 1 << rnd.Intn(64)
	case *gpb.TypedValue_DoubleVal:
		x.DoubleVal = math.Nextafter(x.DoubleVal, float64(rnd.Intn(2)))
	case *gpb.TypedValue_FloatVal:
		x.FloatVal = math.Nextafter32(x.FloatVal, float32(rnd.Intn(2)))
	case *gpb.TypedValue_StringVal:
		x.StringVal += []string{"", " ", "a", "\x00"}[rnd.Intn(4)]
	case *gpb.TypedValue_BytesVal:
		x.BytesVal = append(x.BytesVal, []byte{0, 'a'}[:rnd.Intn(3)]...)
	case *gpb.TypedValue_BoolVal:
		x.BoolVal = !x.BoolVal
	case *gpb.TypedValue_DecimalVal:
		if x.DecimalVal != nil {
			if rnd.Intn(2) == 0 {
				x.DecimalVal.Precision++
				if rnd.Intn(2) == 0 {
					x.DecimalVal.Digits *= 10
				}
			} else {
				x.DecimalVal.Digits ^= 1 << rnd.Intn(62)
			}
		}
	}
	return c
}

func randScalar(rnd *rand.Rand, d int) any {
	u := rnd.Uint64() >> rnd.Intn(64)
	if rnd.Intn(3) == 0 {
		u = []uint64{0, 1, math.MaxInt8, math.MaxUint8, math.MaxInt16, math.MaxUint16, math.MaxInt32, math.MaxUint32, math.MaxInt64, math.MaxUint64, 1 << 63, 1 << 53, 1<<53 + 1}[rnd.Intn(13)]
	}
	switch rnd.Intn(18) {
	case 0:
		return text(rnd)
	case 1:
		return int(u)
	case 2:
		return int8(u)
	case 3:
		return int16(u)
	case 4:
		return int32(u)
	case 5:
		return int64(u)
	case 6:
		return uint(u)
	case 7:
		return uint8(u)
	case 8:
		return uint16(u)
	case 9:
		return uint32(u)
	case 10:
		return u
	case 11:
		return math.Float32frombits(uint32(rnd.Uint64()))
	case 12:
		return math.Float64frombits(rnd.Uint64())
	case 13:
		return []float64{0, 1, -1, 0.1, 1 << 24, 1<<24 + 1, 1e9, -3.25, 1e300, math.Inf(1)}[rnd.Intn(10)]
	case 14:
		return rnd.Intn(2) == 0
	case 15:
		b := make([]byte, rnd.Intn(5))
		rnd.Read(b)
		return b
	case 16:
		s := []string{}
		for i := rnd.Intn(4); i > 0; i-- {
			s = append(s, text(rnd))
		}
		return s
	}
	l := []any{}
	if d > 0 {
		for i := rnd.Intn(4); i > 0; i-- {
			l = append(l, randScalar(rnd, d-1))
		}
	}
	return l
}

type named string

func TestRandom(t *testing.T) {
	w := tr.New("random", 6)
	at := atoms()
	n := tr.N(6000, 60000)
	const workers = 4
	for g := 0; g < workers; g++ {
		func() {
			rnd := rand.New(rand.NewSource(tr.Seed()*1000 + int64(g)))
			for i := 0; i < n/workers/16; i++ {
				r := &rec{}
				for j := 0; j < 16; j++ {
					r.idx(rnd, randPath(rnd))
					r.join(rnd, randPath(rnd), randPath(rnd))
					a, b := randPath(rnd), randPath(rnd)
					if rnd.Intn(2) == 0 {
						a.o = ""
					}
					if rnd.Intn(2) == 0 {
						a.el, a.old = nil, nil
					}
					r.join(rnd, a, b)
					for x := 0; x < 8; x++ {
						v := randVal(rnd, at, 3)
						r.eq(v, near(rnd, v, at))
						r.eq(v, randVal(rnd, at, 3))
						r.scalar(randScalar(rnd, 3))
					}
					r.toScalar(randVal(rnd, at, 3))
				}
				w.Case(fmt.Sprintf("random %d/%d", g, i), r.events())
			}
		}()
	}
	rnd := rand.New(rand.NewSource(tr.Seed()))
	// every pair of atoms
	for i, a := range at {
		r := &rec{}
		r.toScalar(a)
		for j, b := range at {
			if j >= i {
				r.eq(a, b)
			}
		}
		w.Case(fmt.Sprintf("atom %d", i), r.events())
	}
	// scalars that are not supported
	r := &rec{}
	for _, x := range []any{nil, struct{}{}, named("a"), []int{1}, map[string]string{}, complex(1, 1), uintptr(1), "\xff", []string{"\xff"}, []any{nil}, []any{"a", struct{}{}},
		[]any{[]any{[]any{}}}, []any(nil), []string(nil), []byte(nil), (*int)(nil), []any{(*string)(nil)}, &gpb.TypedValue{}, value.DeprecatedScalar{}, error(nil), []any{[]byte{1}, []string{"a"}, true, 1, uint8(2), 2.5}} {
		r.scalar(x)
	}
	w.Case("unsupported", r.events())
	// queries
	nq := 0
	for i := 0; i < n/40; i++ {
		r := &rec{}
		qs := [][]string{}
		for k := 1 + rnd.Intn(4); k > 0; k-- {
			q := []string{}
			for len(q) < rnd.Intn(6) {
				if s := text(rnd); s != "" && !strings.ContainsAny(s, "[]") {
					q = append(q, s)
				}
			}
			qs = append(qs, q)
		}
		nq += len(qs)
		r.queries([]client.Type{client.Once, client.Stream, client.Poll}[i%3], text(rnd), qs, i%2 == 0)
		w.Case(fmt.Sprintf("queries %d", i), r.events())
	}
	w.Close()
	tr.Stats("random", ev{"cases": w.Cases, "events": w.Events, "queries": nq, "atoms": len(at), "atom_pairs": len(at) * (len(at) + 1) / 2})
}

// TestRace converts and compares shared inputs from several goroutines.
func TestRace(t *testing.T) {
	at := atoms()
	var wg sync.WaitGroup
	for i := 0; i < tr.N(20, 200); i++ {
		rnd := rand.New(rand.NewSource(tr.Seed()*7919 + int64(i)))
		var ps []*gpb.Path
		var want [][]string
		for j := 0; j < 40; j++ {
			ps = append(ps, randPath(rnd).build(rnd))
			want = append(want, append([]string{}, path.ToStrings(ps[j], true)...))
		}
		for g := 0; g < 4; g++ {
			wg.Add(1)
			seed := rnd.Int63()
			go func() {
				defer wg.Done()
				rnd := rand.New(rand.NewSource(seed))
				for k := 0; k < 200; k++ {
					j := rnd.Intn(len(ps))
					got := path.ToStrings(ps[j], true)
					path.CompletePath(ps[rnd.Intn(len(ps))], ps[j])
					v := at[rnd.Intn(len(at))]
					value.Equal(v, at[rnd.Intn(len(at))])
					value.ToScalar(v)
					value.FromScalar(randScalar(rnd, 2))
					gclient.ToSubscribeRequest(client.Query{Type: client.Once, Queries: []client.Path{{"a", "b/c", "d"}}})
					if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want[j]) {
						fmt.Printf("index %q, expected %q\n", got, want[j])
						os.Exit(68)
					}
				}
			}()
		}
		wg.Wait()
	}
}
