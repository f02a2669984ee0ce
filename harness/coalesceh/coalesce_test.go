// Package coalesceh records histories of the real coalescing queue.
package coalesceh

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openconfig/gnmi/coalesce"
	"verif/harness/sched"
	"verif/harness/tr"
	"verif/harness/vsync"
)

type ptr struct{ n int }

// the items, of the kinds users insert
var items = []any{nil, "one", &ptr{2}, 3, [2]int{4, 4}}

func id(x any) int {
	for i, y := range items {
		if x == y {
			return i
		}
	}
	return 99
}

type call struct {
	Op string `json:"op"`
	It int    `json:"it"`
}

type rec struct {
	mu  sync.Mutex
	evs []tr.Ev
}

func (r *rec) add(e tr.Ev) tr.Ev {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evs = append(r.evs, e)
	return e
}

func (r *rec) inv(t int, op string, e tr.Ev) tr.Ev {
	e["e"], e["t"], e["op"] = "inv", t, op
	return r.add(e)
}

func (r *rec) set(e tr.Ev, kv ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := 0; i < len(kv); i += 2 {
		e[kv[i].(string)] = kv[i+1]
	}
}

func (r *rec) ret(t int) { r.add(tr.Ev{"e": "ret", "t": t}) }

type env struct {
	r      *rec
	q      *coalesce.Queue
	ctx    context.Context
	cancel func()
}

func (v *env) do(t int, c call) (res string) {
	r := v.r
	defer func() {
		if p := recover(); p != nil {
			r.add(tr.Ev{"e": "panic", "t": t, "msg": fmt.Sprint(p)})
			res = "panic"
		}
	}()
	switch c.Op {
	case "insert":
		e := r.inv(t, "insert", tr.Ev{"it": c.It, "new": false, "err": false})
		n, err := v.q.Insert(items[c.It])
		r.set(e, "new", n, "err", err != nil)
		if err != nil && !coalesce.IsClosedQueue(err) {
			r.set(e, "op", "other error "+err.Error())
		}
		r.ret(t)
	case "next":
		e := r.inv(t, "next", tr.Ev{"res": "pending", "it": 0, "dup": 0})
		x, d, err := v.q.Next(v.ctx)
		switch {
		case err == nil:
			res = "item"
			r.set(e, "it", id(x), "dup", int(d))
		case coalesce.IsClosedQueue(err):
			res = "closed"
		case errors.Is(err, context.Canceled):
			res = "ctx"
		default:
			res = "other error " + err.Error()
		}
		r.set(e, "res", res)
		r.ret(t)
	case "close":
		r.inv(t, "close", tr.Ev{})
		v.q.Close()
		r.ret(t)
	case "cancel":
		r.inv(t, "cancel", tr.Ev{})
		v.cancel()
		r.ret(t)
	case "len":
		e := r.inv(t, "len", tr.Ev{"n": 0})
		r.set(e, "n", v.q.Len())
		r.ret(t)
	case "isclosed":
		e := r.inv(t, "isclosed", tr.Ev{"closed": false})
		r.set(e, "closed", v.q.IsClosed())
		r.ret(t)
	}
	return
}

// TestReplay steps the sequential histories TLC enumerated.  A Next that
// blocks ends the history (it is then cancelled).
func TestReplay(t *testing.T) {
	f, err := os.Open(os.Getenv("VERIF_HIST"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	w := tr.New("replay", 6)
	seen := map[string]bool{}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	n := 0
	for sc.Scan() {
		var ops []call
		if err := json.Unmarshal(sc.Bytes(), &ops); err != nil {
			t.Fatal(err)
		}
		n++
		d := make([]string, len(ops))
		for i, o := range ops {
			d[i] = fmt.Sprintf("%s%d", o.Op, o.It)
		}
		synctest.Test(t, func(t *testing.T) {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			v := &env{r: &rec{}, q: coalesce.NewQueue(), ctx: ctx, cancel: cancel}
			for i, o := range ops {
				if o.Op != "next" {
					v.do(1, o)
					if i == len(ops)-1 {
						v.do(1, call{Op: "len"})
						v.do(1, call{Op: "isclosed"})
					}
					continue
				}
				done := make(chan bool, 1)
				go func() { v.do(1, o); done <- true }()
				synctest.Wait()
				select {
				case <-done:
					continue
				default:
				}
				v.r.add(tr.Ev{"e": "blocked", "t": 1})
				d = d[:i+1]
				v.do(2, call{Op: "cancel"})
				synctest.Wait()
				select {
				case <-done:
				default:
					stuckExit(w, "STUCK "+strings.Join(d, " "), v.r.evs)
				}
				break
			}
			k := strings.Join(d, " ")
			if !seen[k] {
				seen[k] = true
				w.Case("tlc "+k, v.r.evs)
			}
		})
	}
	w.Close()
	tr.Stats("replay", map[string]any{"histories": n, "distinct": w.Cases, "events": w.Events})
}

func stuckExit(w *tr.W, desc string, evs []tr.Ev) {
	w.Case(desc, append(evs, tr.Ev{"e": "stuck"}))
	w.Close()
	os.Exit(0)
}

// execute runs producers and one consumer under a picker.
func execute(t *testing.T, w *tr.W, desc string, progs [][]call, pick sched.Picker) (evs []tr.Ev, yields int) {
	synctest.Test(t, func(t *testing.T) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		v := &env{r: &rec{}, q: coalesce.NewQueue(), ctx: ctx, cancel: cancel}
		c := vsync.NewController()
		vsync.Install(c)
		defer vsync.Install(nil)
		var mu sync.Mutex
		left, consumer := len(progs), true
		for i, p := range progs {
			go func() {
				for _, o := range p {
					vsync.Yield("call", nil)
					v.do(i+2, o)
				}
				mu.Lock()
				left--
				mu.Unlock()
				c.Kick()
			}()
		}
		go func() {
			for {
				vsync.Yield("call", nil)
				if s := v.do(1, call{Op: "next"}); s != "item" {
					break
				}
			}
			mu.Lock()
			consumer = false
			mu.Unlock()
			c.Kick()
		}()
		done := func() bool { mu.Lock(); defer mu.Unlock(); return left == 0 && !consumer }
		if !sched.Run(c, pick, done, time.Second, 100000) {
			mu.Lock()
			l := left
			mu.Unlock()
			if l > 0 {
				stuckExit(w, "STUCK "+desc, v.r.evs)
			}
			v.r.add(tr.Ev{"e": "blocked", "t": 1})
			v.do(50, call{Op: "cancel"})
			if !sched.Run(c, pick, done, time.Second, 100000) {
				stuckExit(w, "STUCK "+desc, v.r.evs)
			}
		}
		yields = c.Yields
		evs = v.r.evs
	})
	return
}

// TestConcurrent records schedule-controlled histories of many producers and
// one consumer.
func TestConcurrent(t *testing.T) {
	w := tr.New("conc", tr.N(7, 16))
	r := rand.New(rand.NewSource(tr.Seed()*7177 + 1))
	seen := map[[32]byte]bool{}
	runs, yields := 0, 0
	emit := func(desc string, evs []tr.Ev, y int) {
		runs++
		yields += y
		j, _ := json.Marshal(evs)
		h := sha256.Sum256(j)
		if !seen[h] {
			seen[h] = true
			w.Case(desc, evs)
		}
	}
	I := func(x int) call { return call{"insert", x} }
	C, X, L, S := call{Op: "close"}, call{Op: "cancel"}, call{Op: "len"}, call{Op: "isclosed"}
	fixed := [][][]call{
		{{I(1)}},
		{{I(1), I(1)}},
		{{I(1)}, {I(1)}},
		{{I(1)}, {I(2)}},
		{{I(1), I(2)}, {I(2), I(1)}},
		{{I(1), C}},
		{{I(1), I(2), C}},
		{{I(1)}, {C}},
		{{I(1), C, I(2)}},
		{{I(1), I(1)}, {C}},
		{{I(1)}, {X}},
		{{I(1), X, I(2)}},
		{{C}, {C}},
		{{I(1)}, {I(2)}, {C}},
		{{I(1), L}, {I(1), S, C, S}},
		{{I(0), I(3)}, {I(0), I(4)}},
	}
	for i, p := range fixed {
		d := &sched.DFS{Bound: tr.N(3, 4)}
		for n := 0; n < tr.N(500, 8000); n++ {
			d.Reset()
			desc := fmt.Sprintf("dfs program %d schedule %d", i, n)
			evs, y := execute(t, w, desc, p, d)
			emit(desc, evs, y)
			if !d.Next() {
				break
			}
		}
	}
	for i := 0; i < tr.N(600, 12000); i++ {
		np := 1 + r.Intn(4)
		ni := 1 + r.Intn(4)
		var progs [][]call
		closer := r.Intn(3)
		for p := 0; p < np; p++ {
			var pr []call
			for j, n := 0, 1+r.Intn(5); j < n; j++ {
				switch x := r.Intn(20); {
				case x == 0:
					pr = append(pr, L)
				case x == 1:
					pr = append(pr, S)
				case x == 2 && closer == 1:
					pr = append(pr, C)
				default:
					pr = append(pr, I(r.Intn(ni+1)))
				}
			}
			progs = append(progs, pr)
		}
		switch closer {
		case 0:
			progs = append(progs, []call{C})
		case 1:
			progs[0] = append(progs[0], C, I(1))
		default:
			if r.Intn(2) == 0 {
				progs = append(progs, []call{X})
			}
		}
		for k := 0; k < 4; k++ {
			var p sched.Picker = sched.Random{R: r}
			switch k % 3 {
			case 1:
				p = sched.NewPCT(r, 80, 4)
			case 2:
				p = &sched.Sticky{R: r, N: 5}
			}
			desc := fmt.Sprintf("random program %d schedule %d", i, k)
			evs, y := execute(t, w, desc, progs, p)
			emit(desc, evs, y)
		}
	}
	w.Close()
	tr.Stats("conc", map[string]any{"schedules": runs, "distinct_histories": w.Cases, "schedule_points": yields, "events": w.Events})
}

// TestRace runs many producers against one consumer freely under the race
// detector, with conservation checked by the consumer's totals.
func TestRace(t *testing.T) {
	r := rand.New(rand.NewSource(tr.Seed()))
	end := time.Now().Add(time.Duration(tr.N(5, 40)) * time.Second)
	rounds := 0
	for time.Now().Before(end) {
		rounds++
		v := &env{r: &rec{}, q: coalesce.NewQueue()}
		v.ctx, v.cancel = context.WithCancel(context.Background())
		np := 1 + r.Intn(6)
		var wg, cw sync.WaitGroup
		for p := 0; p < np; p++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 30; i++ {
					v.q.Insert(items[rr.Intn(len(items))])
					v.q.Len()
					v.q.IsClosed()
				}
			}()
		}
		cw.Add(1)
		go func() {
			defer cw.Done()
			n := 0
			for {
				_, d, err := v.q.Next(v.ctx)
				if err != nil {
					break
				}
				n += 1 + int(d)
			}
			if n != np*30 {
				fmt.Printf("CONSERVATION delivered %d of %d\n", n, np*30)
				os.Exit(68)
			}
		}()
		wg.Wait()
		v.q.Close()
		ok := make(chan bool)
		go func() { cw.Wait(); close(ok) }()
		select {
		case <-ok:
		case <-time.After(30 * time.Second):
			buf := make([]byte, 1<<20)
			fmt.Printf("DEADLOCK\n%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(67)
		}
		v.cancel()
	}
	tr.Stats("race", map[string]any{"rounds": rounds})
}
