// Package gp builds gNMI paths and notifications and encodes them for traces.
package gp

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

// Ev is a JSON object.
type Ev = map[string]any

// keyNames ranks list key names in Go string order.
var keyNames = []string{"", "*", "A", "B", "Z", "a", "aa", "ab", "b", "id", "k", "key", "name", "z", "é"}

func init() {
	if !sort.StringsAreSorted(keyNames) {
		panic("keyNames")
	}
}

// KeyNames returns the ranked key names.
func KeyNames() []string { return append([]string(nil), keyNames...) }

func rank(k string) int {
	i := sort.SearchStrings(keyNames, k)
	if i < len(keyNames) && keyNames[i] == k {
		return i
	}
	panic("unranked key name " + k)
}

// Path encodes a path; keys come in arbitrary (map) order with the rank of
// their name.
func Path(p *gpb.Path) Ev {
	el := []Ev{}
	for _, e := range p.GetElem() {
		ks := []Ev{}
		for k, v := range e.GetKey() {
			ks = append(ks, Ev{"r": rank(k), "v": v})
		}
		el = append(el, Ev{"n": e.GetName(), "k": ks})
	}
	old := []string{}
	old = append(old, p.GetElement()...)
	return Ev{"t": p.GetTarget(), "o": p.GetOrigin(), "el": el, "old": old}
}

// Val is a canonical text of a value; equal texts mean equal values.
func Val(v *gpb.TypedValue) string {
	if v == nil || v.GetValue() == nil {
		return "nil"
	}
	switch x := v.Value.(type) {
	case *gpb.TypedValue_StringVal:
		return "s:" + x.StringVal
	case *gpb.TypedValue_IntVal:
		return fmt.Sprintf("i:%d", x.IntVal)
	case *gpb.TypedValue_UintVal:
		return fmt.Sprintf("u:%d", x.UintVal)
	case *gpb.TypedValue_BoolVal:
		return fmt.Sprintf("b:%v", x.BoolVal)
	case *gpb.TypedValue_DoubleVal:
		return fmt.Sprintf("d:%v", x.DoubleVal)
	case *gpb.TypedValue_LeaflistVal:
		var r []string
		for _, e := range x.LeaflistVal.GetElement() {
			r = append(r, Val(e))
		}
		return "l:[" + strings.Join(r, ",") + "]"
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(v)
	if err != nil {
		return "err"
	}
	return "x:" + hex.EncodeToString(b)
}

// Noti encodes a notification; ts maps its timestamp to a small number.
func Noti(n *gpb.Notification, ts func(int64) int) Ev {
	up, del := []Ev{}, []Ev{}
	for _, u := range n.GetUpdate() {
		up = append(up, Ev{"p": Path(u.GetPath()), "v": Val(u.GetVal()), "d": u.GetDuplicates()})
	}
	for _, d := range n.GetDelete() {
		del = append(del, Path(d))
	}
	return Ev{"ts": ts(n.GetTimestamp()), "pre": Path(n.GetPrefix()), "up": up, "del": del, "at": n.GetAtomic()}
}

// E builds a path of plain elements.
func E(names ...string) *gpb.Path {
	p := &gpb.Path{}
	for _, n := range names {
		p.Elem = append(p.Elem, &gpb.PathElem{Name: n})
	}
	return p
}

// T sets the target of p.
func T(target string, p *gpb.Path) *gpb.Path { p.Target = target; return p }

// O sets the origin of p.
func O(origin string, p *gpb.Path) *gpb.Path { p.Origin = origin; return p }

// Str is a string value.
func Str(s string) *gpb.TypedValue {
	return &gpb.TypedValue{Value: &gpb.TypedValue_StringVal{StringVal: s}}
}

// Int is an int value.
func Int(i int64) *gpb.TypedValue {
	return &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: i}}
}
