package cacheh

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"testing"

	"verif/harness/gp"
	"verif/harness/tr"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

type histOp struct {
	Op string `json:"op"`
	T  string `json:"t"`
	N  struct {
		Ts  int      `json:"ts"`
		At  bool     `json:"at"`
		P   []string `json:"p"`
		Ups []struct {
			P []string `json:"p"`
			V int      `json:"v"`
		} `json:"ups"`
		Dels [][]string `json:"dels"`
	} `json:"n"`
}

func (h histOp) abs() absNoti {
	a := absNoti{ts: h.N.Ts, at: h.N.At, p: h.N.P, dels: h.N.Dels}
	for _, u := range h.N.Ups {
		a.ups = append(a.ups, absUp{u.P, u.V})
	}
	return a
}

// TestReplay replays the histories of a generating model.
func TestReplay(t *testing.T) {
	name := os.Getenv("VERIF_NAME")
	max := envInt("VERIF_MAX", 1<<30)
	f, err := os.Open(os.Getenv("VERIF_HIST"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var lines []string
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	total := len(lines)
	if total > max {
		rng := rand.New(rand.NewSource(tr.Seed()))
		rng.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
		lines = lines[:max]
	}
	w := tr.New(name, 6)
	thr := envInt("VERIF_THR", 0)
	targets := []string{"t"}
	if os.Getenv("VERIF_TWO") != "" {
		targets = []string{"t", "u"}
	}
	for i, s := range lines {
		var h []histOp
		if err := json.Unmarshal([]byte(s), &h); err != nil {
			t.Fatal(err)
		}
		u := units[i%len(units)]
		if thr > 0 && u == 1 {
			u = sec
		}
		x := newWorld(config{ed: i%5 != 0, thr: thr, targets: targets, fam: i / 3, seed: tr.Seed()*1_000_003 + int64(i), unit: u})
		for _, o := range h {
			switch o.Op {
			case "upd":
				x.submit(x.build(o.T, o.abs()))
			default:
				x.op(o.Op, o.T)
			}
		}
		x.end()
		w.CaseCfg(fmt.Sprintf("%s %s", name, s), x.header(), x.evs)
	}
	w.Close()
	tr.Stats(name, tr.Ev{"cases": w.Cases, "events": w.Events, "histories": total})
}

func envInt(k string, d int) int {
	var n int
	if _, err := fmt.Sscan(os.Getenv(k), &n); err == nil {
		return n
	}
	return d
}

var universe = [][]string{
	{"a"}, {"a", "b"}, {"a", "b", "c"}, {"a", "b", "d"}, {"a", "c", "d"}, {"b"}, {"b", "b"}, {"b", "c", "a"}, {"c", "x", "y", "z"}, {"c", "x", "y"}, {"d", "a"},
	{"oc", "a", "b"}, {"oc", "b"}, {"oc"}, {"t1", "a"}, {"a", "meta"}, {"metadata", "a"},
}

// confusable paths differ in where the elements end only.
var confusable = [][]string{
	{"a", "b"}, {"a/b"}, {"a", "b", "c"}, {"a/b", "c"}, {"a", "b/c"}, {"a/b/c"}, {"a", "b", "*x"}, {"a", ""}, {"a", "", "b"}, {"", "a", "b"}, {"a,b"}, {"a b"}, {"a", "b "},
	{"a", "B"}, {"a", "b\\/c"}, {"/a", "b"},
}

// paths are those of the world.
func (w *world) paths() [][]string {
	if w.cfg.seed%3 == 1 {
		return confusable
	}
	return universe
}

func (w *world) somePath() []string { p := w.paths(); return p[w.rng.Intn(len(p))] }

func (w *world) someQuery() []string {
	p := append([]string{}, w.somePath()...)
	switch w.rng.Intn(6) {
	case 0:
		return nil
	case 1:
		p = p[:w.rng.Intn(len(p)+1)]
	case 2:
		p[w.rng.Intn(len(p))] = "*"
	case 3:
		p = append(p[:w.rng.Intn(len(p)+1)], "*")
	}
	return p
}

func (w *world) someNoti(at int) absNoti {
	a := absNoti{ts: at}
	r := w.rng
	switch k := r.Intn(20); {
	case k < 9:
		a.ups = []absUp{{w.somePath(), 1 + r.Intn(3)}}
	case k < 12:
		a.dels = [][]string{w.someQuery()}
	case k < 13: // empty
		a.at = r.Intn(4) == 0
	case k < 16: // atomic
		a.at = true
		a.p = w.somePath()
		for i := 0; i <= r.Intn(3); i++ {
			a.ups = append(a.ups, absUp{[]string{"x", fmt.Sprint(i)}[:1+r.Intn(2)], 1 + r.Intn(2)})
		}
		if r.Intn(12) == 0 {
			a.dels = [][]string{w.someQuery()}
		}
	default:
		for i := r.Intn(4); i > 0; i-- {
			a.ups = append(a.ups, absUp{w.somePath(), 1 + r.Intn(3)})
		}
		for i := r.Intn(3); i > 0; i-- {
			a.dels = append(a.dels, w.someQuery())
		}
	}
	return a
}

// nearly is a notification much like one that was submitted before.
func (w *world) nearly(p absNoti) absNoti {
	r := w.rng
	a := p
	a.ups = append([]absUp{}, p.ups...)
	a.dels = append([][]string{}, p.dels...)
	a.ts += []int{0, 0, 0, 1, -1}[r.Intn(5)]
	if a.ts < 1 {
		a.ts = 1
	}
	if len(a.ups) == 0 {
		return a
	}
	i := r.Intn(len(a.ups))
	switch r.Intn(6) {
	case 0: // the same
	case 1:
		if len(a.ups) > 1 {
			a.ups = append(a.ups[:i], a.ups[i+1:]...)
		}
	case 2:
		a.ups = append(a.ups, absUp{append([]string{}, a.ups[i].p...), 1 + r.Intn(3)})
	case 3:
		a.ups[i], a.ups[0] = a.ups[0], a.ups[i]
	default:
		a.ups[i].v = 1 + a.ups[i].v%3
	}
	return a
}

// TestRandom runs long random histories on several targets.
func TestRandom(t *testing.T) {
	name := os.Getenv("VERIF_NAME")
	mode := os.Getenv("VERIF_MODE")
	w := tr.New(name, 6)
	n := envInt("VERIF_CASES", tr.N(240, 4000))
	for i := 0; i < n; i++ {
		seed := tr.Seed()*7_000_003 + int64(i)
		rng := rand.New(rand.NewSource(seed))
		cfg := config{ed: rng.Intn(3) != 0, fam: rng.Intn(8), seed: seed, targets: []string{"t1"}}
		if rng.Intn(2) == 0 {
			cfg.thr = 2 + rng.Intn(4)
		}
		if cfg.unit = units[rng.Intn(len(units))]; cfg.unit == 1 {
			cfg.thr = 0
		}
		cfg.coarse = mode == "one" && cfg.thr > 0 && rng.Intn(2) == 0
		if mode != "one" {
			cfg.targets = [][]string{{"t1", "t2"}, {"t1", "t1/a"}, {"t1", "oc"}, {"a", "meta", "t1"}}[rng.Intn(4)]
		}
		x := newWorld(cfg)
		steps := 20 + rng.Intn(20)
		past := map[string][]absNoti{}
		latest := map[string]int{}
		for s := 0; s < steps && !x.dead; s++ {
			tgt := cfg.targets[rng.Intn(len(cfg.targets))]
			k := rng.Intn(40)
			switch {
			case k < 8 && len(past[tgt]) > 0:
				b := past[tgt]
				a := x.nearly(b[len(b)-1-rng.Intn(min(len(b), 3))])
				past[tgt] = append(b, a)
				x.submit(x.build(tgt, a))
			case k < 30:
				at := x.clk.k + rng.Intn(4) - 2
				switch {
				case rng.Intn(6) == 0:
					at = x.clk.k + rng.Intn(12)
				case cfg.thr > 0 && rng.Intn(4) == 0: // about the threshold, from the clock ...
					at = x.clk.k + cfg.thr + rng.Intn(3) - 1
				case cfg.thr > 0 && rng.Intn(6) == 0: // ... or from what may be the latest timestamp
					at = latest[tgt] + cfg.thr + rng.Intn(3) - 1
				}
				if at < 1 {
					at = 1
				}
				a := x.someNoti(at)
				if at <= x.clk.k+cfg.thr {
					latest[tgt] = max(latest[tgt], at)
				}
				past[tgt] = append(past[tgt], a)
				x.submit(x.build(tgt, a))
			case k < 32:
				if x.clk.k += 1 + rng.Intn(2); rng.Intn(3) == 0 {
					x.clk.k += cfg.thr
				}
			case k == 32:
				x.op("rst", tgt)
			case k == 33:
				if mode != "one" {
					x.op("rm", tgt)
				}
			case k == 34:
				x.op("add", tgt)
			case k == 35:
				x.op("sync", tgt)
			case k == 36:
				x.op("conn", tgt)
			case k == 37:
				x.op("cerr", tgt)
			case k == 38:
				x.op("size", tgt)
			default:
				x.op("meta", tgt)
			}
		}
		x.end()
		w.CaseCfg(fmt.Sprintf("%s seed %d", name, seed), x.header(), x.evs)
	}
	w.Close()
	tr.Stats(name, tr.Ev{"cases": w.Cases, "events": w.Events})
}

// units are the distances of timestamps.
var units = []int64{sec, 20_000, 1}

// TestScripted runs histories that are kept for a reason.
func TestScripted(t *testing.T) {
	w := tr.New("scripted", 1)
	run := func(desc string, f func(x *world)) {
		x := newWorld(config{ed: true, targets: []string{"t1", "t2"}, seed: 1})
		f(x)
		x.end()
		w.CaseCfg(desc, x.header(), x.evs)
	}
	run("origin in the update's path", func(x *world) {
		pre := &pb.Path{Target: "t1"}
		x.submit(&pb.Notification{Timestamp: ts(1), Prefix: pre, Update: []*pb.Update{{Path: gp.O("oc", gp.E("a", "b")), Val: gp.Int(1)}}})
		x.submit(&pb.Notification{Timestamp: ts(2), Prefix: pre, Delete: []*pb.Path{gp.E("a")}})
	})
	run("deleting the metadata", func(x *world) {
		x.op("sync", "t1")
		x.op("meta", "t1")
		x.submit(&pb.Notification{Timestamp: ts(5), Prefix: &pb.Path{Target: "t1"}, Update: []*pb.Update{{Path: gp.E("a"), Val: gp.Int(1)}}})
		x.submit(&pb.Notification{Timestamp: ts(6), Prefix: &pb.Path{Target: "t1"}, Delete: []*pb.Path{gp.E()}})
		x.op("meta", "t1")
	})
	run("unknown target and missing prefix", func(x *world) {
		x.submit(&pb.Notification{Timestamp: ts(5), Prefix: &pb.Path{Target: "t1"}, Update: []*pb.Update{{Path: gp.E("a"), Val: gp.Int(1)}}})
		x.op("rm", "t2")
		x.submit(&pb.Notification{Timestamp: ts(5), Prefix: &pb.Path{Target: "t2"}, Update: []*pb.Update{{Path: gp.E("a"), Val: gp.Int(1)}}})
		x.submit(&pb.Notification{Timestamp: ts(5), Prefix: &pb.Path{Target: "t2"}})
		x.op("rst", "t2")
		x.op("sync", "t2")
		x.op("conn", "t2")
		x.op("meta", "t2")
	})
	w.Close()
}
