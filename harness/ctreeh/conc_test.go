package ctreeh

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openconfig/gnmi/ctree"
	"verif/harness/sched"
	"verif/harness/tr"
	"verif/harness/vsync"
)

// op is one call of a thread's program.
type op struct {
	Op string
	P  []int
	V  int
	C  []int
	H  int // handle slot of the thread
}

type rec struct {
	mu  sync.Mutex
	evs []tr.Ev
	nh  int
}

func (r *rec) inv(t int, op string, e tr.Ev) tr.Ev {
	e["e"], e["t"], e["op"] = "inv", t, op
	r.mu.Lock()
	r.evs = append(r.evs, e)
	r.mu.Unlock()
	return e
}

func (r *rec) ret(t int) {
	r.mu.Lock()
	r.evs = append(r.evs, tr.Ev{"e": "ret", "t": t})
	r.mu.Unlock()
}

// run executes the program of thread t, recording every call.
func (r *rec) run(t int, tree *ctree.Tree, prog []op) {
	type hnd struct {
		id int
		l  *ctree.Leaf
	}
	var hs []hnd
	defer func() {
		if p := recover(); p != nil {
			r.mu.Lock()
			r.evs = append(r.evs, tr.Ev{"e": "panic", "t": t, "msg": fmt.Sprint(p)})
			r.mu.Unlock()
		}
	}()
	for _, o := range prog {
		if o.P == nil {
			o.P = []int{}
		}
		if o.C == nil {
			o.C = []int{}
		}
		in := map[int]bool{}
		for _, x := range o.C {
			in[x] = true
		}
		cond := func(v any) bool { return in[val(v)] }
		switch o.Op {
		case "add":
			e := r.inv(t, "add", tr.Ev{"p": o.P, "v": o.V, "ok": true})
			err := tree.Add(toS(o.P), o.V)
			e["ok"] = err == nil
			r.ret(t)
		case "del":
			e := r.inv(t, "del", tr.Ev{"p": o.P, "c": o.C, "r": [][]int{}})
			res := [][]int{}
			for _, x := range tree.DeleteConditional(toS(o.P), cond) {
				res = append(res, toI(x))
			}
			e["r"] = res
			r.ret(t)
		case "delwalk":
			e := r.inv(t, "delwalk", tr.Ev{"p": o.P, "c": o.C, "r": []int{}})
			res := []int{}
			tree.WalkDeleted(toS(o.P), cond, func(v any) { res = append(res, val(v)) })
			e["r"] = res
			r.ret(t)
		case "glv":
			e := r.inv(t, "glv", tr.Ev{"p": o.P, "v": -1})
			e["v"] = val(tree.GetLeafValue(toS(o.P)))
			r.ret(t)
		case "handle":
			e := r.inv(t, "handle", tr.Ev{"p": o.P, "h": 0, "ok": false})
			l := tree.GetLeaf(toS(o.P))
			if l != nil {
				r.mu.Lock()
				r.nh++
				e["h"], e["ok"] = r.nh, true
				hs = append(hs, hnd{r.nh, l})
				r.mu.Unlock()
			}
			r.ret(t)
		case "hval":
			if len(hs) == 0 {
				continue
			}
			h := hs[o.H%len(hs)]
			e := r.inv(t, "hval", tr.Ev{"h": h.id, "v": -1})
			e["v"] = val(h.l.Value())
			r.ret(t)
		case "hupd":
			if len(hs) == 0 {
				continue
			}
			h := hs[o.H%len(hs)]
			r.inv(t, "hupd", tr.Ev{"h": h.id, "v": o.V})
			h.l.Update(o.V)
			r.ret(t)
		case "query", "walk", "walks":
			e := r.inv(t, "query", tr.Ev{"p": o.P, "r": []pv{}, "err": false})
			res := []pv{}
			f := func(p []string, l *ctree.Leaf, v any) error {
				res = append(res, pv{toI(p), val(v)})
				return nil
			}
			var err error
			switch o.Op {
			case "query":
				err = tree.Query(toS(o.P), f)
			case "walk":
				e["p"] = []int{}
				err = tree.Walk(f)
			default:
				e["p"] = []int{}
				err = tree.WalkSorted(f)
			}
			e["r"], e["err"] = res, err != nil
			r.ret(t)
		}
	}
}

// execute runs one concurrent program under a picker and returns its trace.
func execute(t *testing.T, setup []op, progs [][]op, pick sched.Picker) (evs []tr.Ev, yields int, stuck bool) {
	synctest.Test(t, func(t *testing.T) {
		r := &rec{}
		tree := &ctree.Tree{}
		r.run(0, tree, setup)
		c := vsync.NewController()
		vsync.Install(c)
		defer vsync.Install(nil)
		left := len(progs)
		var mu sync.Mutex
		for i, p := range progs {
			go func() {
				vsync.Yield("start", nil)
				r.run(i+1, tree, p)
				mu.Lock()
				left--
				mu.Unlock()
				c.Kick()
			}()
		}
		fin := sched.Run(c, pick, func() bool { mu.Lock(); defer mu.Unlock(); return left == 0 }, time.Second, 100000)
		yields = c.Yields
		if !fin {
			stuck = true
			r.mu.Lock()
			r.evs = append(r.evs, tr.Ev{"e": "stuck"})
			evs = r.evs
			r.mu.Unlock()
			// the blocked goroutines cannot be ended: report and stop here
			finishStuck(evs)
		}
		vsync.Install(nil)
		w := []pv{}
		tree.Walk(func(p []string, l *ctree.Leaf, v any) error {
			w = append(w, pv{toI(p), val(v)})
			return nil
		})
		r.evs = append(r.evs, tr.Ev{"e": "final", "w": w})
		evs = r.evs
	})
	return
}

var finishStuck func([]tr.Ev)

func genProgram(r *rand.Rand) (setup []op, progs [][]op) {
	vals := 0
	nv := func() int { vals++; return vals }
	ne := 1 + r.Intn(3)
	maxLen := 1 + r.Intn(3)
	path := func(glob bool) []int {
		n := 1 + r.Intn(maxLen)
		if glob && r.Intn(3) == 0 {
			n = r.Intn(maxLen + 1)
		}
		p := make([]int, n)
		for i := range p {
			p[i] = 2 + r.Intn(ne)
			if glob && r.Intn(3) == 0 {
				p[i] = 1
			}
		}
		return p
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		setup = append(setup, op{Op: "add", P: path(false), V: nv()})
	}
	nt := 2 + r.Intn(2)
	no := 3
	if nt == 2 {
		no = 4
	}
	for i := 0; i < nt; i++ {
		var p []op
		for j, n := 0, 1+r.Intn(no); j < n; j++ {
			all := []int{}
			switch x := r.Intn(16); {
			case x < 5:
				p = append(p, op{Op: "add", P: path(false), V: nv()})
			case x < 8:
				for v := 0; v < 40; v++ {
					if r.Intn(4) > 0 {
						all = append(all, v)
					}
				}
				k := "del"
				if r.Intn(2) == 0 {
					k = "delwalk"
				}
				p = append(p, op{Op: k, P: path(true), C: all})
			case x < 11:
				p = append(p, op{Op: []string{"query", "query", "walk", "walks"}[r.Intn(4)], P: path(true)})
			case x < 13:
				p = append(p, op{Op: "glv", P: path(false)})
			default:
				p = append(p, op{Op: "handle", P: path(false)})
				if r.Intn(2) == 0 {
					p = append(p, op{Op: "hval", H: r.Intn(3)})
				} else {
					p = append(p, op{Op: "hupd", H: r.Intn(3), V: nv()})
				}
			}
		}
		progs = append(progs, p)
	}
	return
}

// fixed programs whose schedules are enumerated systematically
func fixedPrograms() (r [][2]any) {
	all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	A := func(v int, p ...int) op { return op{Op: "add", P: p, V: v} }
	D := func(p ...int) op { return op{Op: "del", P: p, C: all} }
	Q := func(p ...int) op { return op{Op: "query", P: p} }
	G := func(p ...int) op { return op{Op: "glv", P: p} }
	Hd := func(p ...int) op { return op{Op: "handle", P: p} }
	U := func(v int) op { return op{Op: "hupd", V: v} }
	pr := func(setup []op, t ...[]op) { r = append(r, [2]any{setup, t}) }
	// concurrent adds beneath a branch that does not exist yet
	pr(nil, []op{A(1, 2, 2)}, []op{A(2, 2, 3)})
	pr(nil, []op{A(1, 2, 2)}, []op{A(2, 2, 2)}, []op{G(2, 2)})
	pr(nil, []op{A(1, 2)}, []op{A(2, 2, 3)})
	pr(nil, []op{A(1, 2, 2, 2)}, []op{A(2, 2, 2, 3)}, []op{Q()})
	pr([]op{A(9, 3)}, []op{A(1, 2, 2)}, []op{A(2, 2, 3)}, []op{D(2)})
	// add against delete of the only sibling / of the tree
	pr([]op{A(9, 2, 2)}, []op{A(1, 2, 3)}, []op{D(2, 2)})
	pr([]op{A(9, 2, 2)}, []op{A(1, 2, 3), G(2, 3)}, []op{D()})
	pr([]op{A(9, 2, 2), A(8, 2, 3)}, []op{Q(1, 1)}, []op{D(2)})
	pr([]op{A(9, 2, 2), A(8, 3)}, []op{Q()}, []op{D(1)}, []op{A(1, 2, 2)})
	// handles
	pr([]op{A(9, 2, 2)}, []op{Hd(2, 2), U(1)}, []op{D(2)}, []op{A(2, 2, 2)})
	pr([]op{A(9, 2, 2)}, []op{Hd(2, 2), U(1)}, []op{{Op: "delwalk", P: []int{1}, C: []int{1}}})
	pr([]op{A(9, 2)}, []op{A(1, 2), A(2, 2)}, []op{G(2), G(2)})
	pr([]op{A(9, 2)}, []op{A(1, 2)}, []op{A(2, 2)}, []op{Q(2)})
	return
}

// TestConcurrent records schedule-controlled histories.
func TestConcurrent(t *testing.T) {
	w := tr.New("conc", tr.N(7, 16))
	r := rand.New(rand.NewSource(tr.Seed()*104729 + 3))
	seen := map[[32]byte]bool{}
	runs, yields, dup := 0, 0, 0
	emit := func(desc string, evs []tr.Ev) {
		runs++
		j, _ := json.Marshal(evs)
		h := sha256.Sum256(j)
		if seen[h] {
			dup++
			return
		}
		seen[h] = true
		w.Case(desc, evs)
	}
	stats := func() {
		tr.Stats("conc", map[string]any{"schedules": runs, "distinct_histories": w.Cases, "schedule_points": yields, "events": w.Events})
	}
	cur := ""
	finishStuck = func(evs []tr.Ev) {
		emit("STUCK "+cur, evs)
		w.Close()
		stats()
		os.Exit(0)
	}
	for i, fp := range fixedPrograms() {
		d := &sched.DFS{Bound: tr.N(2, 3)}
		for n := 0; n < tr.N(500, 6000); n++ {
			d.Reset()
			cur = fmt.Sprintf("dfs program %d schedule %d", i, n)
			evs, y, _ := execute(t, fp[0].([]op), fp[1].([][]op), d)
			yields += y
			emit(cur, evs)
			if !d.Next() {
				break
			}
		}
	}
	for i := 0; i < tr.N(500, 8000); i++ {
		setup, progs := genProgram(r)
		for k := 0; k < 5; k++ {
			var p sched.Picker = sched.Random{R: r}
			switch k % 3 {
			case 1:
				p = sched.NewPCT(r, 60, 3)
			case 2:
				p = &sched.Sticky{R: r, N: 4}
			}
			cur = fmt.Sprintf("random program %d schedule %d", i, k)
			evs, y, _ := execute(t, setup, progs, p)
			yields += y
			emit(cur, evs)
		}
	}
	w.Close()
	stats()
}

// TestRace runs unsynchronised mixes freely under the race detector; a report
// makes the process exit with status 66, which the check turns into an event.
func TestRace(t *testing.T) {
	r := rand.New(rand.NewSource(tr.Seed()*31 + 5))
	end := time.Now().Add(time.Duration(tr.N(8, 60)) * time.Second)
	n := 0
	for time.Now().Before(end) {
		n++
		tree := &ctree.Tree{}
		g := 2 + r.Intn(7)
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < g; i++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				free(rr, tree)
			}()
		}
		close(start)
		ok := make(chan bool)
		go func() { wg.Wait(); close(ok) }()
		select {
		case <-ok:
		case <-time.After(60 * time.Second):
			buf := make([]byte, 1<<20)
			fmt.Printf("DEADLOCK\n%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(67)
		}
	}
	tr.Stats("race", map[string]any{"rounds": n})
}

func free(r *rand.Rand, tree *ctree.Tree) {
	var hs []*ctree.Leaf
	path := func(glob bool) []string {
		p := make([]string, 1+r.Intn(3))
		for i := range p {
			p[i] = alphabet[2+r.Intn(2)]
			if glob && r.Intn(3) == 0 {
				p[i] = "*"
			}
		}
		return p
	}
	f := func(p []string, l *ctree.Leaf, v any) error {
		hs = append(hs, l)
		return nil
	}
	for i := 0; i < 60; i++ {
		switch r.Intn(14) {
		case 0, 1, 2:
			tree.Add(path(false), r.Intn(9))
		case 3:
			tree.Delete(path(true))
		case 4:
			tree.WalkDeleted(path(true), func(v any) bool { return v.(int)%2 == 0 }, func(any) {})
		case 5:
			tree.Query(path(true), f)
		case 6:
			tree.Walk(f)
		case 7:
			tree.WalkSorted(f)
		case 8:
			tree.GetLeafValue(path(false))
		case 9:
			if n := tree.Get(path(false)); n != nil {
				n.IsBranch()
				n.Children()
				n.Value()
			}
		case 10:
			if h := tree.GetLeaf(path(false)); h != nil {
				hs = append(hs, h)
			}
		case 11:
			_ = tree.String()
		case 12:
			if len(hs) > 0 {
				hs[r.Intn(len(hs))].Value()
			}
		default:
			if len(hs) > 0 {
				hs[r.Intn(len(hs))].Update(r.Intn(9))
			}
		}
	}
}
