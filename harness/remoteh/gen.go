// Package remoteh throws the messages of remote peers at the real code.
package remoteh

import (
	"math"
	"math/rand"
	"sort"

	"google.golang.org/protobuf/proto"
	anypb "google.golang.org/protobuf/types/known/anypb"
	"verif/harness/tr"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

var names = []string{"a", "a", "b", "c", "*", "meta", "sync", "connected", "targetLeaves", "connectedAddress", "", "a/b", "x[y", "é", "...", "t"}

func path(r *rand.Rand, prefix bool) *gpb.Path {
	if r.Intn(8) == 0 {
		return nil
	}
	p := &gpb.Path{}
	for i := r.Intn(4); i > 0; i-- {
		e := &gpb.PathElem{Name: pick(r, names...)}
		for j := r.Intn(6) - 3; j > 0; j-- {
			if e.Key == nil {
				e.Key = map[string]string{}
			}
			e.Key[pick(r, "", "k", "name", "*", "é")] = pick(r, names...)
		}
		p.Elem = append(p.Elem, e)
	}
	if r.Intn(4) == 0 { // deprecated
		if r.Intn(3) > 0 {
			p.Elem = nil
		}
		for i := r.Intn(4); i > 0; i-- {
			p.Element = append(p.Element, pick(r, names...))
		}
	}
	if r.Intn(6) == 0 {
		p.Origin = pick(r, "o", "openconfig", "*", "meta")
	}
	if prefix {
		p.Target = pick(r, "t", "t", "t", "t", "t", "", "*", "u", "nobody")
	} else if r.Intn(10) == 0 {
		p.Target = pick(r, "t", "u")
	}
	return p
}

func typed(r *rand.Rand, depth int) *gpb.TypedValue {
	switch k := r.Intn(20); k {
	case 0:
		return nil
	case 1:
		return &gpb.TypedValue{}
	case 2:
		return &gpb.TypedValue{Value: &gpb.TypedValue_StringVal{StringVal: pick(r, names...)}}
	case 3:
		return &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: pick[int64](r, 0, 1, -1, math.MinInt64, math.MaxInt64)}}
	case 4:
		return &gpb.TypedValue{Value: &gpb.TypedValue_UintVal{UintVal: pick[uint64](r, 0, 1, math.MaxUint64)}}
	case 5, 6:
		return &gpb.TypedValue{Value: &gpb.TypedValue_BoolVal{BoolVal: r.Intn(2) == 0}}
	case 7:
		return &gpb.TypedValue{Value: &gpb.TypedValue_BytesVal{BytesVal: pick(r, nil, []byte{}, []byte("x\xff"))}}
	case 8:
		return &gpb.TypedValue{Value: &gpb.TypedValue_FloatVal{FloatVal: pick(r, 0, 1.5, float32(math.NaN()), float32(math.Inf(1)))}}
	case 9, 10:
		return &gpb.TypedValue{Value: &gpb.TypedValue_DoubleVal{DoubleVal: pick(r, 0, 1.5, math.NaN(), math.Inf(-1), math.MaxFloat64)}}
	case 11:
		if r.Intn(3) == 0 {
			return &gpb.TypedValue{Value: &gpb.TypedValue_DecimalVal{}}
		}
		return &gpb.TypedValue{Value: &gpb.TypedValue_DecimalVal{DecimalVal: &gpb.Decimal64{Digits: pick[int64](r, 0, 12345, -1, math.MinInt64), Precision: pick[uint32](r, 0, 2, 18, 400, math.MaxUint32)}}}
	case 12, 13:
		if depth > 3 || r.Intn(4) == 0 {
			return &gpb.TypedValue{Value: &gpb.TypedValue_LeaflistVal{LeaflistVal: &gpb.ScalarArray{}}}
		}
		a := &gpb.ScalarArray{}
		for i := r.Intn(4); i > 0; i-- {
			v := typed(r, depth+1)
			if v == nil {
				v = &gpb.TypedValue{}
			}
			a.Element = append(a.Element, v)
		}
		return &gpb.TypedValue{Value: &gpb.TypedValue_LeaflistVal{LeaflistVal: a}}
	case 14:
		return &gpb.TypedValue{Value: &gpb.TypedValue_AnyVal{AnyVal: pick(r, nil, &anypb.Any{}, &anypb.Any{TypeUrl: "type.googleapis.com/gnmi.Path", Value: []byte{0xff}}, &anypb.Any{TypeUrl: "x/y", Value: []byte("z")})}}
	case 15, 16:
		return &gpb.TypedValue{Value: &gpb.TypedValue_JsonVal{JsonVal: js(r)}}
	case 17:
		return &gpb.TypedValue{Value: &gpb.TypedValue_JsonIetfVal{JsonIetfVal: js(r)}}
	case 18:
		return &gpb.TypedValue{Value: &gpb.TypedValue_AsciiVal{AsciiVal: pick(r, names...)}}
	default:
		return &gpb.TypedValue{Value: &gpb.TypedValue_ProtoBytes{ProtoBytes: []byte{1, 2}}}
	}
}

func js(r *rand.Rand) []byte {
	return []byte(pick(r, "", "null", "1", `"x"`, `{"a":1}`, `[1,"a",{}]`, "{", "1e999", "\xff", `{"a":{"b":[null]}}`))
}

func update(r *rand.Rand) *gpb.Update {
	u := &gpb.Update{Path: path(r, false), Duplicates: uint32(pick(r, 0, 0, 1, math.MaxUint32))}
	if r.Intn(6) == 0 {
		u.Value = &gpb.Value{Type: gpb.Encoding(pick(r, 0, 1, 2, 3, 4, 77)), Value: js(r)}
	}
	if u.Value == nil || r.Intn(3) == 0 {
		u.Val = typed(r, 0)
	}
	return u
}

func notification(r *rand.Rand) *gpb.Notification {
	n := &gpb.Notification{Timestamp: pick[int64](r, 0, 1, 2, 3, 3, 4, 5, -1, math.MaxInt64, math.MinInt64, 1<<60), Atomic: r.Intn(6) == 0}
	n.Prefix = path(r, true)
	if n.Prefix == nil && r.Intn(3) > 0 {
		n.Prefix = &gpb.Path{Target: "t"}
	}
	for i := pick(r, 0, 1, 1, 1, 2, 3); i > 0; i-- {
		n.Update = append(n.Update, update(r))
	}
	for i := pick(r, 0, 0, 0, 1, 1, 2); i > 0; i-- {
		p := path(r, false)
		if p == nil {
			p = &gpb.Path{}
		}
		n.Delete = append(n.Delete, p)
	}
	return n
}

func response(r *rand.Rand) *gpb.SubscribeResponse {
	switch r.Intn(12) {
	case 0:
		return &gpb.SubscribeResponse{}
	case 1, 2:
		return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: r.Intn(4) > 0}}
	case 3:
		return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Error{Error: pick(r, &gpb.Error{}, &gpb.Error{Code: 5, Message: "no", Data: &anypb.Any{TypeUrl: "q"}})}}
	case 4:
		return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: &gpb.Notification{}}}
	}
	return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: notification(r)}}
}

func request(r *rand.Rand) *gpb.SubscribeRequest {
	switch r.Intn(12) {
	case 0:
		return &gpb.SubscribeRequest{}
	case 1:
		return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Poll{Poll: &gpb.Poll{}}}
	case 2:
		return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{}}}
	}
	l := &gpb.SubscriptionList{Prefix: path(r, true), Mode: gpb.SubscriptionList_Mode(pick(r, 0, 0, 1, 1, 2, 2, 3, -1)), UpdatesOnly: r.Intn(4) == 0,
		AllowAggregation: r.Intn(2) == 0, Encoding: gpb.Encoding(pick(r, 0, 1, 4, 9))}
	if r.Intn(6) == 0 {
		l.Qos = &gpb.QOSMarking{Marking: 999}
		l.UseModels = []*gpb.ModelData{{}}
	}
	for i := pick(r, 0, 1, 1, 1, 2, 4); i > 0; i-- {
		l.Subscription = append(l.Subscription, &gpb.Subscription{Path: path(r, false), Mode: gpb.SubscriptionMode(r.Intn(4)),
			SampleInterval: pick[uint64](r, 0, 1, math.MaxUint64), HeartbeatInterval: pick[uint64](r, 0, math.MaxUint64), SuppressRedundant: r.Intn(2) == 0})
	}
	return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: l}}
}

// wire is what arrives of m: it goes over the wire, where some bytes may
// change, as long as the result is well formed.
func wire[M proto.Message](r *rand.Rand, m M, fresh func() M, mutate bool) M {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	for try := 0; mutate && try < 20; try++ {
		c := append([]byte(nil), b...)
		for k := 1 + r.Intn(4); k > 0 && len(c) > 0; k-- {
			i := r.Intn(len(c))
			switch r.Intn(6) {
			case 0:
				c[i] = byte(r.Intn(256))
			case 1:
				c[i] ^= 1 << r.Intn(8)
			case 2:
				c = append(c[:i], c[i+1:]...)
			case 3:
				c = append(c[:i], append([]byte{byte(r.Intn(256))}, c[i:]...)...)
			case 4: // repeat a piece
				j := i + r.Intn(len(c)-i)
				c = append(c[:j], append(append([]byte(nil), c[i:j]...), c[j:]...)...)
			case 5:
				c = c[:i]
			}
		}
		x := fresh()
		if proto.Unmarshal(c, x) == nil {
			return x
		}
	}
	x := fresh()
	if err := proto.Unmarshal(b, x); err != nil {
		panic(err)
	}
	return x
}

func wireN(r *rand.Rand, n *gpb.Notification) *gpb.Notification {
	return wire(r, n, func() *gpb.Notification { return &gpb.Notification{} }, r.Intn(3) == 0)
}
func wireResp(r *rand.Rand, n *gpb.SubscribeResponse) *gpb.SubscribeResponse {
	return wire(r, n, func() *gpb.SubscribeResponse { return &gpb.SubscribeResponse{} }, r.Intn(3) == 0)
}
func wireReq(r *rand.Rand, n *gpb.SubscribeRequest) *gpb.SubscribeRequest {
	return wire(r, n, func() *gpb.SubscribeRequest { return &gpb.SubscribeRequest{} }, r.Intn(3) == 0)
}

// ---- encoding --------------------------------------------------------------

func pathEv(p *gpb.Path) tr.Ev {
	el := []tr.Ev{}
	for _, e := range p.GetElem() {
		var ns []string
		for k := range e.GetKey() {
			ns = append(ns, k)
		}
		sort.Strings(ns)
		ks := []tr.Ev{}
		for i, k := range ns {
			ks = append(ks, tr.Ev{"r": i, "v": e.Key[k]})
		}
		el = append(el, tr.Ev{"n": e.GetName(), "k": ks})
	}
	return tr.Ev{"t": p.GetTarget(), "o": p.GetOrigin(), "el": el, "old": append([]string{}, p.GetElement()...)}
}

func notiEv(n *gpb.Notification) tr.Ev {
	up, del := []tr.Ev{}, []tr.Ev{}
	for _, u := range n.GetUpdate() {
		up = append(up, pathEv(u.GetPath()))
	}
	for _, d := range n.GetDelete() {
		del = append(del, pathEv(d))
	}
	return tr.Ev{"pre": pathEv(n.GetPrefix()), "up": up, "del": del, "at": n.GetAtomic()}
}
