package cacheh

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/latency"
	"github.com/openconfig/gnmi/metadata"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"verif/harness/gp"
	"verif/harness/tr"
)

// setRec records what the latency statistics export.
type setRec struct{ evs *[]tr.Ev }

// SetInt implements latency.Metadata.
func (s setRec) SetInt(name string, v int64) error {
	*s.evs = append(*s.evs, statEv(name, v))
	return nil
}

var windows = []time.Duration{40, 80, 200}

func statEv(name string, v int64) tr.Ev {
	for _, w := range windows {
		for st, k := range map[latency.StatType]string{latency.Avg: "avg", latency.Max: "max", latency.Min: "min"} {
			if name == latency.MetadataName(w, st) {
				if v > 1<<30 || v < -(1<<30) {
					v = 1 << 30
				}
				return tr.Ev{"w": int(w), "k": k, "v": v}
			}
		}
	}
	return tr.Ev{"w": 0, "k": name, "v": 0}
}

// TestLatency feeds samples to the latency statistics; one unit is 1 ns.
func TestLatency(t *testing.T) {
	defer func() { latency.Now, cache.Now = time.Now, time.Now }()
	w := tr.New("lat", 4)
	n := tr.N(400, 8000)
	for i := 0; i < n; i++ {
		seed := tr.Seed()*3_000_017 + int64(i)
		r := rand.New(rand.NewSource(seed))
		now := int64(r.Intn(50))
		latency.Now = func() time.Time { return time.Unix(0, base+now) }
		prec := []int{1, 1, 7, 10, 1000}[r.Intn(5)]
		l := latency.New(windows, &latency.Options{AvgPrecision: time.Duration(prec)})
		var evs, sets []tr.Ev
		m := setRec{&sets}
		spread := []int64{5, 60, 4000, 900000}[r.Intn(4)]
		shift := []int64{0, 0, -spread / 2, -2 * spread, 3 * spread}[r.Intn(5)]
		sample := func() {
			lat := r.Int63n(spread) + shift
			if r.Intn(8) == 0 {
				lat = 0
			}
			l.Compute(time.Unix(0, base+now-lat))
			evs = append(evs, tr.Ev{"e": "sample", "now": now, "lat": lat})
		}
		period := []int64{20, 20, 40}[r.Intn(3)]
		for s := 0; s < 25; s++ {
			for k := r.Intn(4); k > 0; k-- {
				if r.Intn(3) == 0 {
					now += r.Int63n(5)
				}
				sample()
			}
			if r.Intn(6) == 0 { // a pause
				now += period * int64(r.Intn(8))
			}
			if r.Intn(10) == 0 {
				now += r.Int63n(period)
			} else {
				now = (now/period + 1) * period
			}
			sets = nil
			op := "refresh"
			if s == 24 && r.Intn(3) == 0 {
				l.UpdateLast(m)
				op = "last"
			} else {
				l.UpdateReset(m)
			}
			if sets == nil {
				sets = []tr.Ev{}
			}
			evs = append(evs, tr.Ev{"e": op, "now": now, "sets": sets})
		}
		w.CaseCfg(fmt.Sprintf("lat seed %d", seed), tr.Ev{"prec": prec}, evs)
	}
	// through the cache: accepted updates of a synced target
	for i := 0; i < tr.N(60, 800); i++ {
		seed := tr.Seed()*4_000_037 + int64(i)
		r := rand.New(rand.NewSource(seed))
		now := int64(1)
		latency.Now = func() time.Time { return time.Unix(0, base+now) }
		ctr := int64(0)
		cache.Now = func() time.Time { ctr++; return time.Unix(0, base+1000*sec+ctr) }
		prec := []int{1, 10}[r.Intn(2)]
		// a period of 1 ns makes any window valid
		opt, err := cache.WithLatencyWindows([]string{"40ns", "80ns", "200ns"}, 1)
		if err != nil {
			t.Fatal(err)
		}
		c := cache.New([]string{"t"}, opt, cache.WithAvgLatencyPrecision(time.Duration(prec)))
		var evs, sets []tr.Ev
		c.SetClient(func(l *ctree.Leaf) {
			n, ok := l.Value().(*pb.Notification)
			if !ok || len(n.GetUpdate()) != 1 {
				return
			}
			if es := n.GetUpdate()[0].GetPath().GetElem(); len(es) == 5 && es[0].GetName() == metadata.Root {
				var p []string
				for _, e := range es {
					p = append(p, e.GetName())
				}
				for _, wd := range windows {
					for _, st := range []latency.StatType{latency.Avg, latency.Max, latency.Min} {
						if strings.Join(latency.Path(wd, st, []string{metadata.Root}), "/") == strings.Join(p, "/") {
							sets = append(sets, statEv(latency.MetadataName(wd, st), n.GetUpdate()[0].GetVal().GetIntVal()))
						}
					}
				}
			}
		})
		c.Sync("t")
		v := int64(0)
		for s := 0; s < 20; s++ {
			for k := r.Intn(4); k > 0; k-- {
				lat := r.Int63n(60)
				v++
				// a path of its own: always accepted, never suppressed
				p := gp.E("a", fmt.Sprint(v))
				if err := c.GnmiUpdate(&pb.Notification{Timestamp: base + now - lat, Prefix: &pb.Path{Target: "t"}, Update: []*pb.Update{{Path: p, Val: gp.Int(v)}}}); err == nil {
					evs = append(evs, tr.Ev{"e": "sample", "now": now, "lat": lat})
				}
				if r.Intn(3) == 0 {
					now++
				}
			}
			now = (now/20 + 1 + int64(r.Intn(8)/6)*3) * 20
			sets = []tr.Ev{}
			c.UpdateMetadata()
			evs = append(evs, tr.Ev{"e": "refresh", "now": now, "sets": sets})
		}
		w.CaseCfg(fmt.Sprintf("lat cache seed %d", seed), tr.Ev{"prec": prec}, evs)
	}
	w.Close()
	tr.Stats("lat", tr.Ev{"cases": w.Cases, "events": w.Events})
}
