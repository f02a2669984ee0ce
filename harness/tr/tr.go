// Package tr writes traces (one JSON object per line) and reads the
// environment of a check.
package tr

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"sync"
)

// Ev is one trace event.
type Ev = map[string]any

// W writes a trace, sharded over several files by case.
type W struct {
	mu     sync.Mutex
	files  []*os.File
	bufs   []*bufio.Writer
	cur    int
	Cases  int
	Events int
}

// Dir is the output directory of this run.
func Dir() string {
	d := os.Getenv("VERIF_OUT")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

// Seed is the seed of this run.
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Thorough tells whether this is the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N returns q in the quick tier and t in the thorough one.
func N(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

// New creates shards files name.<i>.ndjson.
func New(name string, shards int) *W {
	w := &W{}
	for i := 0; i < shards; i++ {
		f, err := os.Create(filepath.Join(Dir(), fmt.Sprintf("%s.%d.ndjson", name, i)))
		if err != nil {
			panic(err)
		}
		w.files = append(w.files, f)
		w.bufs = append(w.bufs, bufio.NewWriterSize(f, 1<<20))
	}
	return w
}

// Case writes a whole case: a reset event with the case's description,
// then the events.
func (w *W) Case(desc string, evs []Ev) {
	w.CaseCfg(desc, nil, evs)
}

// CaseCfg is Case with extra fields in the reset event.
func (w *W) CaseCfg(desc string, cfg Ev, evs []Ev) {
	w.mu.Lock()
	defer w.mu.Unlock()
	b := w.bufs[w.cur]
	w.cur = (w.cur + 1) % len(w.bufs)
	w.Cases++
	h := Ev{"e": "reset", "case": desc}
	for k, v := range cfg {
		h[k] = v
	}
	w.line(b, h)
	for _, e := range evs {
		w.line(b, e)
	}
}

func (w *W) line(b *bufio.Writer, e Ev) {
	j, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	b.Write(j)
	b.WriteByte('\n')
	w.Events++
}

// Close flushes.
func (w *W) Close() {
	for i, b := range w.bufs {
		if err := b.Flush(); err != nil {
			panic(err)
		}
		w.files[i].Close()
	}
}

// Stats writes the counters of a run for the evidence file.
func Stats(name string, m map[string]any) {
	j, _ := json.MarshalIndent(m, "", " ")
	if err := os.WriteFile(filepath.Join(Dir(), name+".stats.json"), j, 0o644); err != nil {
		panic(err)
	}
}
