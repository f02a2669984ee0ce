package pipeh

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"github.com/openconfig/gnmi/value"
	"google.golang.org/protobuf/proto"
	"verif/harness/gp"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// ---- values ----------------------------------------------------------------

// val is a value with its renderings: canonical, on a line, in a tree.
type val struct {
	tv      *gpb.TypedValue
	c, s, g string
}

func (v val) ev() ev { return ev{"c": v.c, "s": v.s, "g": v.g} }

// canon is the canonical text of a scalar.
func canon(v any) string {
	switch x := v.(type) {
	case string:
		return "s|" + x
	case int64:
		return fmt.Sprintf("i|%d", x)
	case uint64:
		return fmt.Sprintf("u|%d", x)
	case bool:
		return fmt.Sprintf("b|%v", x)
	case float32:
		return fmt.Sprintf("f|%v", x)
	case float64:
		return fmt.Sprintf("f|%v", x)
	case []byte:
		return fmt.Sprintf("x|%x", x)
	case []any:
		var r []string
		for _, e := range x {
			r = append(r, canon(e))
		}
		return "[" + strings.Join(r, ";") + "]"
	case value.DeprecatedScalar:
		b, err := json.Marshal(x.Value)
		return fmt.Sprintf("j|%s %v", b, err)
	}
	return fmt.Sprintf("?%T|%v", v, v)
}

func grouped(v any) string {
	switch x := v.(type) {
	case string:
		return fmt.Sprintf("%q", x)
	case []any:
		var r []string
		for _, e := range x {
			r = append(r, grouped(e))
		}
		return "[" + strings.Join(r, ", ") + "]"
	}
	return fmt.Sprint(v)
}

func mk(tv *gpb.TypedValue, v any) val { return val{tv, canon(v), fmt.Sprint(v), grouped(v)} }

var texts = []string{"", "a", "up", "1", "true", "é", "x y", "a/b", "[k=v]", "\"q\"", "{", "}", "a: b", "<nil>x", "\\", "日本"}

// someValue is number k of the values of a kind, which differ.
func someValue(r *rand.Rand, kind, k int) val {
	// exact in binary, so that all renderings agree
	half := float64(k) + 0.5
	switch kind {
	case 0:
		s := pick(r, texts...) + fmt.Sprint(k)
		return mk(gp.Str(s), s)
	case 1:
		i := pick(r, int64(k), int64(-k), int64(1)<<62+int64(k))
		return mk(gp.Int(i), i)
	case 2:
		u := pick(r, uint64(k), uint64(1)<<63+uint64(k))
		return mk(&gpb.TypedValue{Value: &gpb.TypedValue_UintVal{UintVal: u}}, u)
	case 3:
		return mk(&gpb.TypedValue{Value: &gpb.TypedValue_BoolVal{BoolVal: k%2 == 0}}, k%2 == 0)
	case 4:
		return mk(&gpb.TypedValue{Value: &gpb.TypedValue_DoubleVal{DoubleVal: half}}, half)
	case 5:
		return mk(&gpb.TypedValue{Value: &gpb.TypedValue_FloatVal{FloatVal: float32(half)}}, half)
	case 6:
		return mk(&gpb.TypedValue{Value: &gpb.TypedValue_DecimalVal{DecimalVal: &gpb.Decimal64{Digits: int64(k)*10 + 5, Precision: 1}}}, half)
	case 7:
		b := []byte{byte(k), 0, 255}[:1+r.Intn(3)]
		return mk(&gpb.TypedValue{Value: &gpb.TypedValue_BytesVal{BytesVal: b}}, b)
	case 8:
		l := &gpb.ScalarArray{}
		e := []any{}
		for i := 0; i <= k%3; i++ {
			x := someValue(r, pick(r, 0, 1, 2, 3), k+i)
			l.Element = append(l.Element, x.tv)
			e = append(e, native(x.tv))
		}
		return mk(&gpb.TypedValue{Value: &gpb.TypedValue_LeaflistVal{LeaflistVal: l}}, e)
	case 9:
		var v any
		b := []byte(pick(r, "%d", "%d.25", `"%d"`, `"x y %d"`, `{"a": %d}`, `{"b": {"c": [%d, "x"]}, "a": true}`, `[%d, null, false]`))
		b = []byte(strings.ReplaceAll(string(b), "%d", fmt.Sprint(k)))
		if err := json.Unmarshal(b, &v); err != nil {
			panic(err)
		}
		tv := &gpb.TypedValue{Value: &gpb.TypedValue_JsonVal{JsonVal: b}}
		if r.Intn(2) == 0 {
			tv = &gpb.TypedValue{Value: &gpb.TypedValue_JsonIetfVal{JsonIetfVal: b}}
		}
		return val{tv, canon(value.DeprecatedScalar{Value: v}), fmt.Sprint(v), fmt.Sprint(v)}
	}
	panic("kind")
}

// native is the Go value of a scalar.
func native(tv *gpb.TypedValue) any {
	switch x := tv.GetValue().(type) {
	case *gpb.TypedValue_StringVal:
		return x.StringVal
	case *gpb.TypedValue_IntVal:
		return x.IntVal
	case *gpb.TypedValue_UintVal:
		return x.UintVal
	case *gpb.TypedValue_BoolVal:
		return x.BoolVal
	case *gpb.TypedValue_DoubleVal:
		return x.DoubleVal
	case *gpb.TypedValue_FloatVal:
		return float64(x.FloatVal)
	case *gpb.TypedValue_DecimalVal:
		f := float64(x.DecimalVal.Digits)
		for i := uint32(0); i < x.DecimalVal.Precision; i++ {
			f /= 10
		}
		return f
	case *gpb.TypedValue_BytesVal:
		return x.BytesVal
	case *gpb.TypedValue_LeaflistVal:
		r := []any{}
		for _, e := range x.LeaflistVal.GetElement() {
			r = append(r, native(e))
		}
		return r
	case *gpb.TypedValue_JsonVal:
		return undoJSON(x.JsonVal)
	case *gpb.TypedValue_JsonIetfVal:
		return undoJSON(x.JsonIetfVal)
	}
	return nil
}

func undoJSON(b []byte) any {
	var v any
	if err := json.Unmarshal(b, &v); err != nil {
		return err.Error()
	}
	return value.DeprecatedScalar{Value: v}
}

// bare removes what marks values that were JSON on displays.
func bare(v string) string {
	if m := marked.FindStringSubmatch(v); m != nil {
		return m[1]
	}
	return v
}

var marked = regexp.MustCompile(`(?s)^\{Deprecated TypedValue_Json(?:Ietf)?Val (.*)\}$`)

// ---- paths -----------------------------------------------------------------

// leaf is a leaf of a target's schema.
type leaf struct {
	origin string // "": the default
	el     []*gpb.PathElem
	group  int // length of the prefix of its atomic group, 0: none
}

func (l leaf) index() []string { return append([]string{l.org()}, index(l.el)...) }
func (l leaf) org() string {
	if l.origin == "" {
		return "openconfig"
	}
	return l.origin
}

func index(el []*gpb.PathElem) (r []string) {
	for _, e := range el {
		r = append(r, e.Name)
		var ks []string
		for k := range e.Key {
			ks = append(ks, k)
		}
		for i := range ks {
			for j := i + 1; j < len(ks); j++ {
				if ks[j] < ks[i] {
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
		}
		for _, k := range ks {
			r = append(r, e.Key[k])
		}
	}
	return r
}

var keyVals = []string{"1", "2", "eth0/1", "Ethernet1", "2001:db8::1", "a b", "é", "10.0.0.1"}

func container(r *rand.Rand) *gpb.PathElem {
	e := &gpb.PathElem{Name: pick(r, "a", "b", "interfaces", "interface", "x-y", "oc:z")}
	switch r.Intn(5) {
	case 0, 1:
		e.Key = map[string]string{pick(r, "name", "id", "k"): pick(r, keyVals...)}
	case 2:
		e.Key = map[string]string{"name": pick(r, keyVals...), "id": pick(r, keyVals...), "Z": pick(r, keyVals...)}
	}
	return e
}

// schema invents leaves none of which is above another one; the last ones are
// an atomic group.
func schema(r *rand.Rand, n int) (ls []leaf) {
	bases := [][]*gpb.PathElem{}
	for i := 0; i < 3; i++ {
		b := []*gpb.PathElem{container(r)}
		for j := r.Intn(3); j > 0; j-- {
			b = append(b, container(r))
		}
		bases = append(bases, b)
	}
	for i := 0; i < n; i++ {
		b := bases[r.Intn(len(bases))]
		el := append(append([]*gpb.PathElem{}, b...), &gpb.PathElem{Name: fmt.Sprintf("l%d", i)})
		ls = append(ls, leaf{origin: pick(r, "", "", "", "", "openconfig", "cli", "o2"), el: el})
	}
	return ls
}

func withGroup(r *rand.Rand, ls []leaf, n int) []leaf {
	b := []*gpb.PathElem{{Name: "grp"}, container(r)}
	o := pick(r, "", "o2")
	for i := 0; i < n; i++ {
		ls = append(ls, leaf{origin: o, group: 2, el: append(append([]*gpb.PathElem{}, b...), &gpb.PathElem{Name: fmt.Sprintf("g%d", i)})})
	}
	return ls
}

func sameElem(a, b *gpb.PathElem) bool { return proto.Equal(a, b) }

// at is a path of an operation.
type at struct {
	origin string
	el     []*gpb.PathElem
}

// encode writes the paths of a notification in one of the ways that gNMI has
// for it: how much of them is in the prefix, where the origin is, and which
// encoding of the elements is used.
func encode(r *rand.Rand, me string, ps []at, maxPre int) (*gpb.Path, []*gpb.Path) {
	pre := &gpb.Path{Target: pick(r, "", me, "bogus")}
	same := true
	common := 0
	if len(ps) > 0 {
		common = len(ps[0].el)
	}
	for _, p := range ps {
		same = same && p.origin == ps[0].origin
		k := 0
		for k < common && k < len(p.el) && sameElem(p.el[k], ps[0].el[k]) {
			k++
		}
		common = k
	}
	if common > maxPre {
		common = maxPre
	}
	inPath := !same || r.Intn(3) == 0
	k := 0
	if same && !(inPath && ps[0].origin != "") {
		k = r.Intn(common + 1)
	}
	put := func(p *gpb.Path, el []*gpb.PathElem) {
		switch r.Intn(4) {
		case 0: // deprecated
			p.Element = index(el)
		case 1: // both
			p.Elem, p.Element = el, []string{"ignored"}
		default:
			p.Elem = el
		}
		if len(p.Elem) == 0 && len(el) == 0 {
			p.Element = nil
		}
	}
	if len(ps) > 0 {
		put(pre, ps[0].el[:k])
		if !inPath {
			pre.Origin = ps[0].origin
		}
	}
	var out []*gpb.Path
	for _, p := range ps {
		q := &gpb.Path{}
		if inPath {
			q.Origin = p.origin
		}
		put(q, p.el[k:])
		out = append(out, q)
	}
	if pre.Target == "" && pre.Origin == "" && len(pre.Elem) == 0 && len(pre.Element) == 0 && r.Intn(2) == 0 {
		pre = nil
	}
	return pre, out
}

// ---- queries ---------------------------------------------------------------

// query selects a part of a target.
type query struct {
	origin string
	el     []*gpb.PathElem
}

func (q query) index() []string { return append([]string{q.origin}, index(q.el)...) }

func everything() query { return query{origin: "*"} }

// queries picks some that select leaves of ls; a wildcard never is far enough
// to the right to be compared with the end of another leaf.
func queries(r *rand.Rand, ls []leaf) (qs []query) {
	if r.Intn(3) == 0 {
		return []query{everything()}
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		l := ls[r.Intn(len(ls))]
		q := query{origin: l.org()}
		n := r.Intn(len(l.el) + 1)
		if l.group > 0 && n > l.group {
			n = l.group
		}
		for _, e := range l.el[:n] {
			q.el = append(q.el, proto.Clone(e).(*gpb.PathElem))
		}
		if len(q.index()) <= 3 && r.Intn(3) == 0 {
			switch k := r.Intn(len(q.el) + 1); {
			case k == 0:
				q.origin = "*"
			case len(q.el[k-1].Key) > 0 && r.Intn(2) == 0:
				for x := range q.el[k-1].Key {
					q.el[k-1].Key[x] = "*"
				}
			default:
				q.el[k-1].Name = "*"
			}
		}
		qs = append(qs, q)
	}
	return qs
}
