// Package sched drives the goroutines of a testing/synctest bubble through
// vsync's schedule points, one at a time, under a chosen strategy.
package sched

import (
	"math/rand"
	"sort"
	"testing/synctest"
	"time"

	"verif/harness/vsync"
)

// Picker chooses the next goroutine among the parked ones (sorted by age).
type Picker interface {
	Pick(ps []*vsync.Point) int
}

// Random picks uniformly.
type Random struct{ R *rand.Rand }

// Pick implements Picker.
func (r Random) Pick(ps []*vsync.Point) int { return r.R.Intn(len(ps)) }

// Sticky keeps running the same goroutine and switches with probability 1/N.
type Sticky struct {
	R    *rand.Rand
	N    int
	last uint64
}

// Pick implements Picker.
func (s *Sticky) Pick(ps []*vsync.Point) int {
	if s.R.Intn(s.N) != 0 {
		for i, p := range ps {
			if p.GoID == s.last {
				return i
			}
		}
	}
	i := s.R.Intn(len(ps))
	s.last = ps[i].GoID
	return i
}

// PCT is probabilistic concurrency testing: random priorities, with the
// running goroutine demoted at random steps.
type PCT struct {
	R      *rand.Rand
	Change map[int]bool
	step   int
	prio   map[uint64]int
	low    int
}

// NewPCT builds a PCT picker for about n steps with d priority changes.
func NewPCT(r *rand.Rand, n, d int) *PCT {
	p := &PCT{R: r, Change: map[int]bool{}, prio: map[uint64]int{}}
	for i := 0; i < d; i++ {
		p.Change[r.Intn(n)] = true
	}
	return p
}

// Pick implements Picker.
func (p *PCT) Pick(ps []*vsync.Point) int {
	best := -1
	for i, q := range ps {
		if _, ok := p.prio[q.GoID]; !ok {
			p.prio[q.GoID] = 1 + p.R.Intn(1<<20)
		}
		if best < 0 || p.prio[q.GoID] > p.prio[ps[best].GoID] {
			best = i
		}
	}
	if p.Change[p.step] {
		p.low--
		p.prio[ps[best].GoID] = p.low
	}
	p.step++
	return best
}

// DFS enumerates schedules systematically: Pick follows Prefix and then takes
// the first goroutine; Next advances Prefix to the next unexplored schedule
// with at most Bound preemptions (Bound<0: unbounded).
type DFS struct {
	Bound  int
	prefix []int
	widths []int
	costs  []int // preemptions spent before this step
	order  [][]int
	pos    int
	last   uint64
	spent  int
}

// Reset starts a new run.
func (d *DFS) Reset() { d.pos, d.last, d.spent = 0, 0, 0; d.widths = d.widths[:0]; d.costs = d.costs[:0] }

// Pick implements Picker.  Choice 0 is to continue the last goroutine if it
// is parked, so every other choice then costs one preemption.
func (d *DFS) Pick(ps []*vsync.Point) int {
	ord := make([]int, 0, len(ps))
	cont := -1
	for i, p := range ps {
		if p.GoID == d.last {
			cont = i
		}
	}
	if cont >= 0 {
		ord = append(ord, cont)
	}
	for i := range ps {
		if i != cont {
			ord = append(ord, i)
		}
	}
	w := len(ord)
	if cont >= 0 && d.Bound >= 0 && d.spent >= d.Bound {
		w = 1
	}
	c := 0
	if d.pos < len(d.prefix) {
		c = d.prefix[d.pos]
	} else {
		d.prefix = append(d.prefix, 0)
	}
	if c >= w {
		c = w - 1
	}
	d.widths = append(d.widths, w)
	d.pos++
	if cont >= 0 && c > 0 {
		d.spent++
	}
	i := ord[c]
	d.last = ps[i].GoID
	return i
}

// Next moves to the next schedule; false when all were explored.
func (d *DFS) Next() bool {
	d.prefix = d.prefix[:d.pos]
	for i := d.pos - 1; i >= 0; i-- {
		if d.prefix[i]+1 < d.widths[i] {
			d.prefix = append(d.prefix[:i:i], d.prefix[i]+1)
			return true
		}
	}
	return false
}

// Run schedules goroutines until done() holds with nothing parked, or nothing
// has happened for idle (fake) time, or max steps were taken. It reports
// whether done() held. It must be called from the root of a synctest bubble.
func Run(c *vsync.Controller, p Picker, done func() bool, idle time.Duration, max int) bool {
	for n := 0; ; n++ {
		synctest.Wait()
		ps := c.Parked()
		if len(ps) == 0 {
			if done() {
				return true
			}
			deadline := time.Now().Add(idle)
			for len(c.Parked()) == 0 && !done() {
				if !time.Now().Before(deadline) {
					return false
				}
				c.WaitParked(time.Until(deadline))
				synctest.Wait()
			}
			continue
		}
		if n >= max {
			return false
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].GoID < ps[j].GoID })
		c.Resume(ps[p.Pick(ps)])
	}
}
