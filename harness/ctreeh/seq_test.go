// Package ctreeh records traces of the real ctree.
package ctreeh

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/openconfig/gnmi/ctree"
	"verif/harness/tr"
)

// alphabet in Go string order; rank 1 is the wildcard.
var alphabet = []string{"", "*", "a", "a/b", "ab", "b", "c", "é"}

func init() {
	if !sort.StringsAreSorted(alphabet) || alphabet[1] != "*" {
		panic("alphabet")
	}
}

var rank = func() map[string]int {
	m := map[string]int{}
	for i, s := range alphabet {
		m[s] = i
	}
	return m
}()

func toS(p []int) []string {
	r := make([]string, len(p))
	for i, x := range p {
		r[i] = alphabet[x]
	}
	return r
}

func toI(p []string) []int {
	r := make([]int, 0, len(p))
	for _, x := range p {
		k, ok := rank[x]
		if !ok {
			k = 1000 + len(x)
		}
		r = append(r, k)
	}
	return r
}

type pv struct {
	P []int `json:"p"`
	V int   `json:"v"`
}

func val(v any) int {
	switch x := v.(type) {
	case nil:
		return -1
	case int:
		return x
	default:
		return -2
	}
}

type seq struct {
	t    *ctree.Tree
	evs  []tr.Ev
	hs   []*ctree.Leaf
	dead bool
	turn bool
}

func (s *seq) walk(sorted bool, k int) (r []pv, err error) {
	r = []pv{}
	// The paths and leaves are kept until the walk has ended, as the client
	// library does.
	var ps [][]string
	var ls []*ctree.Leaf
	f := func(p []string, l *ctree.Leaf, v any) error {
		r = append(r, pv{nil, val(v)})
		ps, ls = append(ps, p), append(ls, l)
		if k > 0 && len(r) == k {
			return errStop
		}
		return nil
	}
	if sorted {
		err = s.t.WalkSorted(f)
	} else {
		err = s.t.Walk(f)
	}
	for i, p := range ps {
		r[i].P = toI(p)
		if x := val(ls[i].Value()); x != r[i].V {
			r[i].V = -3
		}
	}
	return
}

var errStop = errors.New("stop")

func (s *seq) ev(e tr.Ev) { s.evs = append(s.evs, e) }

// guard runs f; a panic becomes an event and ends the case.
func (s *seq) guard(what string, f func()) {
	if s.dead {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			s.ev(tr.Ev{"e": "panic", "msg": fmt.Sprintf("%s: %v", what, r)})
			s.dead = true
		}
	}()
	f()
}

// content is taken from sorted and unsorted walks in turn.
func (s *seq) content() []pv {
	s.turn = !s.turn
	w, _ := s.walk(s.turn, 0)
	return w
}

func (s *seq) add(p []int, v int) {
	s.guard("add", func() {
		err := s.t.Add(toS(p), v)
		s.ev(tr.Ev{"e": "add", "p": p, "v": v, "ok": err == nil, "w": s.content()})
	})
}

func (s *seq) del(p []int, c []int, kind int) {
	in := map[int]bool{}
	for _, x := range c {
		in[x] = true
	}
	cond := func(v any) bool { return in[val(v)] }
	s.guard("delete", func() {
		switch kind {
		case 0:
			r := [][]int{}
			for _, x := range s.t.Delete(toS(p)) {
				r = append(r, toI(x))
			}
			s.ev(tr.Ev{"e": "delall", "p": p, "r": r, "w": s.content()})
		case 1:
			r := [][]int{}
			for _, x := range s.t.DeleteConditional(toS(p), cond) {
				r = append(r, toI(x))
			}
			s.ev(tr.Ev{"e": "del", "p": p, "c": c, "r": r, "w": s.content()})
		case 2:
			r := []int{}
			s.t.WalkDeleted(toS(p), cond, func(v any) { r = append(r, val(v)) })
			s.ev(tr.Ev{"e": "delwalk", "p": p, "c": c, "r": r, "w": s.content()})
		}
	})
}

func (s *seq) query(p []int, k int) {
	s.guard("query", func() {
		r := []pv{}
		err := s.t.Query(toS(p), func(q []string, l *ctree.Leaf, v any) error {
			r = append(r, pv{toI(q), val(v)})
			if k > 0 && len(r) == k {
				return errStop
			}
			return nil
		})
		if k > 0 {
			s.ev(tr.Ev{"e": "querr", "p": p, "k": k, "r": r, "err": err == errStop})
			return
		}
		s.ev(tr.Ev{"e": "query", "p": p, "r": r, "err": err != nil})
	})
}

func (s *seq) walks(sorted bool, k int) {
	s.guard("walk", func() {
		r, err := s.walk(sorted, k)
		n := "walk"
		if sorted {
			n = "walks"
		}
		if k > 0 {
			s.ev(tr.Ev{"e": n + "err", "k": k, "r": r, "err": err == errStop})
			return
		}
		s.ev(tr.Ev{"e": n, "r": r, "err": err != nil})
	})
}

func (s *seq) get(p []int) {
	s.guard("get", func() {
		n := s.t.Get(toS(p))
		kind, v := "nil", -1
		kids := []int{}
		if n != nil {
			for k := range n.Children() {
				kids = append(kids, toI([]string{k})[0])
			}
			switch {
			case n.IsBranch():
				kind = "branch"
			case n.Value() == nil:
				kind = "empty"
			default:
				kind, v = "leaf", val(n.Value())
			}
		}
		sort.Ints(kids)
		s.ev(tr.Ev{"e": "get", "p": p, "kind": kind, "v": v, "kids": kids})
	})
}

func (s *seq) glv(p []int) {
	s.guard("GetLeafValue", func() {
		s.ev(tr.Ev{"e": "glv", "p": p, "v": val(s.t.GetLeafValue(toS(p)))})
	})
}

func (s *seq) handle(p []int) {
	s.guard("GetLeaf", func() {
		h := s.t.GetLeaf(toS(p))
		if len(p) == 0 && h.Value() == nil {
			h = nil // the root of an empty tree
		}
		if h != nil {
			s.hs = append(s.hs, h)
		}
		s.ev(tr.Ev{"e": "handle", "p": p, "h": len(s.hs), "ok": h != nil})
	})
}

func (s *seq) hval(i int) {
	s.guard("Leaf.Value", func() {
		s.ev(tr.Ev{"e": "hval", "h": i + 1, "v": val(s.hs[i].Value())})
	})
}

func (s *seq) hupd(i, v int) {
	s.guard("Leaf.Update", func() {
		s.hs[i].Update(v)
		s.ev(tr.Ev{"e": "hupd", "h": i + 1, "v": v, "w": s.content()})
	})
}

type histOp struct {
	Op string `json:"op"`
	P  []int  `json:"p"`
	V  int    `json:"v"`
	C  []int  `json:"c"`
}

// TestReplay steps the operation histories TLC generated through the tree.
func TestReplay(t *testing.T) {
	f, err := os.Open(os.Getenv("VERIF_HIST"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	w := tr.New("replay", 4)
	defer w.Close()
	r := rand.New(rand.NewSource(tr.Seed()))
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var ops []histOp
		if err := json.Unmarshal(sc.Bytes(), &ops); err != nil {
			t.Fatal(err)
		}
		s := &seq{t: &ctree.Tree{}}
		var d []string
		for _, o := range ops {
			switch o.Op {
			case "add":
				s.add(o.P, o.V)
			case "del":
				s.del(o.P, o.C, 1+r.Intn(2))
			}
			d = append(d, fmt.Sprintf("%s%v", o.Op, o.P))
		}
		// keep only what this history adds to the ones before: its last step
		last := ops[len(ops)-1]
		s.get(last.P)
		s.query(last.P, 0)
		if r.Intn(4) == 0 {
			s.query([]int{1}, 0)
			s.walks(true, 0)
		}
		if last.Op == "del" {
			last.P = append([]int{}, last.P...)
			for i, x := range last.P {
				if x == 1 {
					last.P[i] = 2
				}
			}
			// a later add at a pruned position
			s.add(last.P, 2)
		}
		w.Case("tlc "+strings.Join(d, " "), s.evs)
	}
	tr.Stats("replay", map[string]any{"cases": w.Cases, "events": w.Events})
}

// TestRandom runs long random operation sequences.
func TestRandom(t *testing.T) {
	r := rand.New(rand.NewSource(tr.Seed()*7919 + 1))
	w := tr.New("random", tr.N(4, 8))
	defer w.Close()
	n := tr.N(400, 6000)
	for c := 0; c < n; c++ {
		s := &seq{t: &ctree.Tree{}}
		maxLen := 1 + r.Intn(6)
		na := 2 + r.Intn(len(alphabet)-2)
		stored := func() int { // rarely the special elements
			if r.Intn(25) == 0 {
				return r.Intn(2)
			}
			return 2 + r.Intn(na-1)%(len(alphabet)-2)
		}
		path := func(glob bool) []int {
			n := r.Intn(maxLen + 1)
			if n == 0 && r.Intn(3) > 0 {
				n = 1
			}
			if glob && r.Intn(4) == 0 {
				n++
			}
			p := make([]int, n)
			for i := range p {
				p[i] = stored()
				if glob && r.Intn(3) == 0 {
					p[i] = 1
				}
			}
			return p
		}
		known := [][]int{}
		pick := func(glob bool) []int {
			if len(known) == 0 || r.Intn(3) == 0 {
				return path(glob)
			}
			p := append([]int{}, known[r.Intn(len(known))]...)
			switch r.Intn(5) {
			case 0:
				p = p[:r.Intn(len(p)+1)]
			case 1:
				p = append(p, stored())
			}
			if glob {
				for i := range p {
					if r.Intn(4) == 0 {
						p[i] = 1
					}
				}
				if r.Intn(6) == 0 {
					p = append(p, 1)
				}
			}
			return p
		}
		rootHandle := false
		for i, k := 0, 10+r.Intn(40); i < k && !s.dead; i++ {
			v := 1 + r.Intn(3)
			switch x := r.Intn(20); {
			case x < 7:
				p := path(false)
				switch y := r.Intn(4); {
				case y == 0:
					p = pick(false)
				case y == 1 && len(known) > 0: // next to another one
					p = append([]int{}, known[r.Intn(len(known))]...)
					if len(p) > 0 {
						p[len(p)-1] = stored()
					}
				}
				known = append(known, p)
				s.add(p, v)
			case x < 9:
				if rootHandle {
					continue
				}
				s.del(pick(true), []int{1, 2, 3}, 0)
			case x < 10:
				if rootHandle {
					continue
				}
				c := []int{}
				for v := 1; v <= 3; v++ {
					if r.Intn(2) == 0 {
						c = append(c, v)
					}
				}
				s.del(pick(true), c, 1+r.Intn(2))
			case x < 13:
				s.query(pick(true), 0)
			case x < 14:
				s.query(pick(true), 1+r.Intn(3))
			case x < 15:
				s.walks(r.Intn(2) == 0, r.Intn(2)*(1+r.Intn(3)))
			case x < 16:
				s.get(pick(false))
			case x < 17:
				s.glv(pick(false))
			case x < 18:
				p := pick(false)
				s.handle(p)
				if len(p) == 0 {
					rootHandle = true
				}
			case len(s.hs) > 0:
				if r.Intn(2) == 0 {
					s.hval(r.Intn(len(s.hs)))
				} else {
					s.hupd(r.Intn(len(s.hs)), v)
				}
			}
		}
		w.Case(fmt.Sprintf("random %d", c), s.evs)
	}
	tr.Stats("random", map[string]any{"cases": w.Cases, "events": w.Events})
}
