// Package connh records the use of shared connections.
package connh

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/openconfig/gnmi/connection"
	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/credentials/insecure"
	"verif/harness/sched"
	"verif/harness/tr"
	"verif/harness/vsync"
)

type dialErr struct {
	k   int
	err error
}

func (d *dialErr) Error() string { return fmt.Sprintf("dial %d: %v", d.k, d.err) }
func (d *dialErr) Unwrap() error { return d.err }

type reqst struct {
	conn   *grpc.ClientConn
	done   func()
	cancel func()
	res    string
}

type world struct {
	mu     sync.Mutex
	evs    []tr.Ev
	m      *connection.Manager
	conns  map[int]*grpc.ClientConn
	byConn map[*grpc.ClientConn]int
	closed map[int]bool
	nd, nr int
	rq     map[int]*reqst
	// dial behaviour
	script func(ctx context.Context, k int, addr string) error
}

func newWorld() *world {
	w := &world{conns: map[int]*grpc.ClientConn{}, byConn: map[*grpc.ClientConn]int{}, closed: map[int]bool{}, rq: map[int]*reqst{}}
	d := func(ctx context.Context, addr string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
		w.mu.Lock()
		w.poll()
		w.nd++
		k := w.nd
		w.evs = append(w.evs, tr.Ev{"e": "dial", "k": k, "a": addr})
		w.mu.Unlock()
		err := w.script(ctx, k, addr)
		var c *grpc.ClientConn
		if err == nil {
			c, err = grpc.NewClient("passthrough:///"+addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		w.poll()
		w.evs = append(w.evs, tr.Ev{"e": "dialend", "k": k, "ok": err == nil})
		if err != nil {
			return nil, &dialErr{k, err}
		}
		w.conns[k] = c
		w.byConn[c] = k
		return c, nil
	}
	m, err := connection.NewManagerCustom(map[string]connection.Dial{connection.DEFAULT: d, "other": d})
	if err != nil {
		panic(err)
	}
	w.m = m
	return w
}

// poll records closings; w.mu is held.
func (w *world) poll() {
	for k := 1; k <= w.nd; k++ {
		if c := w.conns[k]; c != nil && !w.closed[k] && c.GetState() == connectivity.Shutdown {
			w.closed[k] = true
			w.evs = append(w.evs, tr.Ev{"e": "closed", "k": k})
		}
	}
}

func (w *world) add(e tr.Ev) {
	w.mu.Lock()
	w.poll()
	w.evs = append(w.evs, e)
	w.mu.Unlock()
}

func (w *world) pollNow() {
	w.mu.Lock()
	w.poll()
	w.mu.Unlock()
}

func (w *world) guard(f func()) {
	defer func() {
		if x := recover(); x != nil {
			w.add(tr.Ev{"e": "panic", "msg": fmt.Sprint(x)})
		}
	}()
	f()
}

// newReq numbers a request.
func (w *world) newReq(cx bool) (int, context.Context) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.nr++
	ctx, cancel := context.WithCancel(context.Background())
	w.rq[w.nr] = &reqst{cancel: cancel}
	if cx {
		cancel()
	}
	return w.nr, ctx
}

func (w *world) request(r int, ctx context.Context, a, dialer string) {
	cx := ctx.Err() != nil
	w.guard(func() {
		w.add(tr.Ev{"e": "req", "r": r, "a": a, "dl": dialer != "none", "cx": cx})
		c, done, err := w.m.Connection(ctx, a, dialer)
		e := tr.Ev{"e": "ret", "r": r, "k": 0, "res": ""}
		var de *dialErr
		w.mu.Lock()
		q := w.rq[r]
		q.conn, q.done = c, done
		switch {
		case err == nil:
			e["k"], e["res"] = w.byConn[c], "conn"
		case errors.As(err, &de):
			e["k"], e["res"] = de.k, "err"
		case cx && errors.Is(err, context.Canceled):
			e["res"] = "ctx"
		default:
			e["res"] = "err"
		}
		q.res = e["res"].(string)
		w.mu.Unlock()
		w.add(e)
	})
}

func (w *world) release(r int) {
	w.mu.Lock()
	d := w.rq[r].done
	w.mu.Unlock()
	if d == nil {
		return
	}
	w.guard(func() {
		w.add(tr.Ev{"e": "done", "r": r})
		d()
		w.add(tr.Ev{"e": "doneret", "r": r})
	})
}

func (w *world) finish() []tr.Ev {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.poll()
	evs := w.evs
	w.evs = nil
	for _, c := range w.conns {
		c.Close()
	}
	return evs
}

type op struct {
	Op string `json:"op"`
	G  int    `json:"g"`
	A  any    `json:"a"`
}

func replay(h []op) []tr.Ev {
	w := newWorld()
	out := map[string]chan error{"a": make(chan error), "b": make(chan error)}
	w.script = func(ctx context.Context, k int, addr string) error {
		select {
		case err := <-out[addr]:
			return err
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	last := map[int]int{}
	for _, o := range h {
		switch o.Op {
		case "req":
			r, ctx := w.newReq(false)
			last[o.G] = r
			go w.request(r, ctx, o.A.(string), "")
		case "ok", "fail":
			var err error
			if o.Op == "fail" {
				err = errors.New("scripted")
			}
			select {
			case out[o.A.(string)] <- err:
			default:
				w.add(tr.Ev{"e": "no dial"})
			}
		case "done", "again":
			if r := last[o.G]; r != 0 {
				w.release(r)
			}
		}
		synctest.Wait()
		w.add(tr.Ev{"e": "quiet"})
	}
	// what is still waiting fails
	for r := 1; r <= w.nr; r++ {
		w.rq[r].cancel()
	}
	synctest.Wait()
	for r := 1; r <= w.nr; r++ {
		w.release(r)
	}
	w.add(tr.Ev{"e": "quiet"})
	w.add(tr.Ev{"e": "end"})
	return w.finish()
}

// TestReplay steps TLC's histories.
func TestReplay(t *testing.T) {
	f, err := os.Open(os.Getenv("VERIF_HIST"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var all [][]op
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var h []op
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			t.Fatal(err)
		}
		all = append(all, h)
	}
	// longest first: shorter ones are their prefixes
	r := rand.New(rand.NewSource(tr.Seed()))
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if n := tr.N(2500, 30000); len(all) > n {
		all = all[:n]
	}
	w := tr.New("replay", 6)
	defer w.Close()
	for i, h := range all {
		synctest.Test(t, func(t *testing.T) { w.Case(fmt.Sprint("history ", i), replay(h)) })
	}
	tr.Stats("replay", map[string]any{"cases": w.Cases, "events": w.Events})
}

// ---- controlled schedules -------------------------------------------------

type step struct {
	op     string // req, done, again, cancel, yield
	a, dl  string
	cx     bool
	target int // index of the request in the program (over all goroutines)
}

type program struct {
	steps [][]step
	ok    []bool // outcome of the k-th dial
	slow  []int  // yields inside the k-th dial
}

func randProgram(r *rand.Rand) program {
	var p program
	addrs := []string{"a", "a", "a", "b"}
	n := 2 + r.Intn(3)
	for g := 0; g < n; g++ {
		var s []step
		for k := 0; k < 1+r.Intn(2); k++ {
			q := step{op: "req", a: addrs[r.Intn(len(addrs))], cx: r.Intn(12) == 0}
			if r.Intn(10) == 0 {
				q.dl = "none"
			} else if r.Intn(4) == 0 {
				q.dl = "other"
			}
			s = append(s, q)
			if r.Intn(6) > 0 {
				s = append(s, step{op: "done"})
			}
			if r.Intn(5) == 0 {
				s = append(s, step{op: "done"})
			}
		}
		if r.Intn(4) == 0 {
			s = append(s, step{op: "done"})
		}
		p.steps = append(p.steps, s)
	}
	if r.Intn(3) == 0 {
		p.steps = append(p.steps, []step{{op: "cancel", target: r.Intn(n)}})
	}
	for k := 0; k < 12; k++ {
		p.ok = append(p.ok, r.Intn(5) > 1)
		p.slow = append(p.slow, r.Intn(3))
	}
	return p
}

type polling struct {
	sched.Picker
	w *world
}

func (p polling) Pick(ps []*vsync.Point) int {
	p.w.pollNow()
	return p.Picker.Pick(ps)
}

func runProgram(p program, pk sched.Picker) []tr.Ev {
	w := newWorld()
	w.script = func(ctx context.Context, k int, addr string) error {
		for i := 0; i <= p.slow[(k-1)%len(p.slow)]; i++ {
			vsync.Yield("dial", nil)
			if ctx.Err() != nil {
				return ctx.Err()
			}
		}
		if !p.ok[(k-1)%len(p.ok)] {
			return errors.New("scripted")
		}
		return nil
	}
	ctl := vsync.NewController()
	vsync.Install(ctl)
	defer vsync.Install(nil)
	var mu sync.Mutex
	left := len(p.steps)
	for g := range p.steps {
		go func() {
			defer func() { mu.Lock(); left--; mu.Unlock() }()
			cur := 0
			for _, s := range p.steps[g] {
				vsync.Yield("op", nil)
				switch s.op {
				case "req":
					r, ctx := w.newReq(s.cx)
					cur = r
					w.request(r, ctx, s.a, s.dl)
				case "done":
					if cur > 0 {
						w.release(cur)
					}
				case "cancel":
					w.mu.Lock()
					if q := w.rq[s.target+1]; q != nil {
						q.cancel()
					}
					w.mu.Unlock()
				}
			}
		}()
	}
	ok := sched.Run(ctl, polling{pk, w}, func() bool { mu.Lock(); defer mu.Unlock(); return left == 0 }, time.Second, 5000)
	ctl.Release()
	if !ok {
		w.add(tr.Ev{"e": "stuck"})
		for r := 1; r <= w.nr; r++ {
			w.rq[r].cancel()
		}
		return w.finish()
	}
	vsync.Install(nil)
	synctest.Wait()
	w.add(tr.Ev{"e": "quiet"})
	for r := 1; r <= w.nr; r++ {
		w.release(r)
	}
	w.add(tr.Ev{"e": "quiet"})
	// whatever is asked for now is dialled afresh
	for _, a := range []string{"a", "b"} {
		r, ctx := w.newReq(false)
		w.request(r, ctx, a, "")
		w.release(r)
	}
	w.add(tr.Ev{"e": "quiet"})
	w.add(tr.Ev{"e": "end"})
	return w.finish()
}

// TestConcurrent runs random programs under random schedules.
func TestConcurrent(t *testing.T) {
	w := tr.New("conc", 6)
	defer w.Close()
	n := tr.N(1500, 25000)
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(tr.Seed()*7919 + int64(i)))
		p := randProgram(r)
		var pk sched.Picker = sched.Random{R: r}
		if i%3 == 1 {
			pk = &sched.Sticky{R: r, N: 4}
		} else if i%3 == 2 {
			pk = sched.NewPCT(r, 40, 3)
		}
		var evs []tr.Ev
		synctest.Test(t, func(t *testing.T) { evs = runProgram(p, pk) })
		w.Case(fmt.Sprint("random ", i), evs)
	}
	tr.Stats("conc", map[string]any{"cases": w.Cases, "events": w.Events})
}

// TestDFS explores small programs systematically.
func TestDFS(t *testing.T) {
	w := tr.New("dfs", 6)
	defer w.Close()
	rq, dn := step{op: "req", a: "a"}, step{op: "done"}
	ps := map[string]program{
		"two users":            {steps: [][]step{{rq, dn}, {rq, dn}}, ok: []bool{true}, slow: []int{0}},
		"release and request":  {steps: [][]step{{rq, dn, rq, dn}, {rq, dn}}, ok: []bool{true}, slow: []int{0}},
		"two users, failing":   {steps: [][]step{{rq, dn}, {rq, dn}}, ok: []bool{false, true}, slow: []int{0}},
		"three, first fails":   {steps: [][]step{{rq}, {rq, dn}, {rq, dn}}, ok: []bool{false, true}, slow: []int{0}},
		"released twice":       {steps: [][]step{{rq, dn, dn}, {rq, dn}}, ok: []bool{true}, slow: []int{0}},
		"cancelled":            {steps: [][]step{{rq, dn}, {rq, dn}, {{op: "cancel"}}}, ok: []bool{true}, slow: []int{1}},
		"no dialer then known": {steps: [][]step{{{op: "req", a: "a", dl: "none"}}, {rq, dn}}, ok: []bool{true}, slow: []int{0}},
	}
	max := tr.N(150, 6000)
	full := map[string]any{}
	for name, p := range ps {
		d := &sched.DFS{Bound: tr.N(2, 3)}
		done := false
		for k := 0; k < max; k++ {
			d.Reset()
			var evs []tr.Ev
			synctest.Test(t, func(t *testing.T) { evs = runProgram(p, d) })
			w.Case(fmt.Sprint(name, " ", k), evs)
			if !d.Next() {
				done = true
				break
			}
		}
		full[name] = done
	}
	tr.Stats("dfs", map[string]any{"cases": w.Cases, "events": w.Events, "exhausted": full})
}

// TestRace uses connections freely, for the race detector.
func TestRace(t *testing.T) {
	for i := 0; i < tr.N(30, 300); i++ {
		w := newWorld()
		r := rand.New(rand.NewSource(tr.Seed()*31 + int64(i)))
		bad := r.Intn(4)
		w.script = func(ctx context.Context, k int, addr string) error {
			if k%5 == bad {
				return errors.New("scripted")
			}
			return nil
		}
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 20; k++ {
					c, done, err := w.m.Connection(context.Background(), "a", "")
					if err == nil && c.GetState() == connectivity.Shutdown {
						fmt.Println("closed while held")
						os.Exit(68)
					}
					if err != nil && c != nil {
						os.Exit(68)
					}
					done()
					if k%3 == 0 {
						done()
					}
				}
			}()
		}
		wg.Wait()
		w.mu.Lock()
		for _, c := range w.conns {
			if c.GetState() != connectivity.Shutdown {
				fmt.Println("leaked")
				os.Exit(68)
			}
		}
		w.mu.Unlock()
	}
}
