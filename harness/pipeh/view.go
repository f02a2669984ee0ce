package pipeh

import (
	"context"
	"crypto/tls"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/openconfig/gnmi/client"
	_ "github.com/openconfig/gnmi/client/gnmi"
	"google.golang.org/protobuf/encoding/prototext"
	"verif/harness/tr"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

// state is what an observer has: the rendering of a value by its path.
type state map[string]string

const sep = "\x00"

func key(p []string) string { return strings.Join(p, sep) }

// del removes what p, which may have wildcards, is above of.
func (s state) del(p []string) {
	s.match(p, func(k string) { delete(s, k) })
}

func (s state) matches(p []string) (ok bool) {
	s.match(p, func(string) { ok = true })
	return ok
}

func (s state) match(p []string, f func(k string)) {
	for len(p) > 0 && p[len(p)-1] == "*" {
		p = p[:len(p)-1]
	}
next:
	for k := range s {
		q := strings.Split(k, sep)
		if len(q) < len(p) {
			continue
		}
		for i := range p {
			if p[i] != "*" && p[i] != q[i] {
				continue next
			}
		}
		f(k)
	}
}

// leaves lists what belongs to target me, other than the collector's metadata.
func (s state) leaves(me string) []ev {
	r := []ev{}
	for k, v := range s {
		p := strings.Split(k, sep)
		if p[0] == me && (len(p) < 2 || p[1] != "meta") {
			r = append(r, ev{"p": p, "v": v})
		}
	}
	return r
}

// observer is a client of the collector.
type observer interface {
	// state is nil while there is nothing to be seen yet.
	state() state
	how() string
	form() string
	close()
}

// ---- requests --------------------------------------------------------------

func flagPath(q query, d string) string {
	s := []string{q.origin}
	for _, e := range q.el {
		x := e.Name
		for k, v := range e.Key {
			x += "[" + k + "=" + v + "]"
		}
		s = append(s, x)
	}
	return strings.Join(s, d)
}

// request is the SubscribeRequest of some queries, in one of several forms.
func request(r *rand.Rand, target string, qs []query, mode gpb.SubscriptionList_Mode) *gpb.SubscribeRequest {
	l := &gpb.SubscriptionList{Prefix: &gpb.Path{Target: target}, Mode: mode}
	same := true
	for _, q := range qs {
		same = same && q.origin == qs[0].origin
	}
	how := r.Intn(3)
	if how == 0 && (!same || qs[0].origin == "*") {
		how = 1
	}
	if how == 0 {
		l.Prefix.Origin = qs[0].origin
	}
	for _, q := range qs {
		p := &gpb.Path{Elem: q.el}
		switch {
		case how == 0:
		case how == 1 && q.origin != "*":
			p.Origin = q.origin
		default:
			p.Elem = append([]*gpb.PathElem{{Name: q.origin}}, q.el...)
		}
		if r.Intn(5) == 0 {
			p.Element, p.Elem = index(p.Elem), nil
		}
		l.Subscription = append(l.Subscription, &gpb.Subscription{Path: p})
	}
	return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: l}}
}

func libQuery(r *rand.Rand, addr, target string, qs []query, typ client.Type) client.Query {
	q := client.Query{Addrs: []string{addr}, Target: target, Type: typ, Timeout: 30 * time.Second, TLS: &tls.Config{InsecureSkipVerify: true}}
	for _, x := range qs {
		p := []string{}
		if r.Intn(2) == 0 {
			p = x.index()
		} else {
			p = append(p, x.origin)
			for _, e := range x.el {
				s := e.Name
				for k, v := range e.Key {
					s += "[" + k + "=" + v + "]"
				}
				p = append(p, s)
			}
		}
		q.Queries = append(q.Queries, p)
	}
	return q
}

// ---- the client library ----------------------------------------------------

type lib struct {
	c      *client.CacheClient
	cancel func()
	name   string
	poll   bool
	synced atomic.Bool
	mu     sync.Mutex
	err    error
	ready  chan struct{}
}

func newLib(r *rand.Rand, addr, target string, qs []query, poll bool) *lib {
	typ := client.Stream
	l := &lib{c: client.New(), poll: poll, name: "stream", ready: make(chan struct{})}
	if poll {
		typ = client.Poll
		l.name = "poll"
	}
	q := libQuery(r, addr, target, qs, typ)
	if r.Intn(3) == 0 {
		sr := request(r, target, qs, map[bool]gpb.SubscriptionList_Mode{true: gpb.SubscriptionList_POLL, false: gpb.SubscriptionList_STREAM}[poll])
		q2, err := client.NewQuery(sr)
		if err != nil {
			panic(err)
		}
		q2.Addrs, q2.Timeout, q2.TLS = q.Addrs, q.Timeout, q.TLS
		q = q2
		l.name += " of a request"
	}
	q.NotificationHandler = func(n client.Notification) error {
		if _, ok := n.(client.Sync); ok {
			l.synced.Store(true)
		}
		return nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	l.cancel = cancel
	go func() {
		err := l.c.Subscribe(ctx, q, "gnmi")
		l.mu.Lock()
		l.err = err
		l.mu.Unlock()
		close(l.ready)
	}()
	return l
}

func (l *lib) how() string  { return "client library, " + l.name }
func (l *lib) form() string { return "c" }
func (l *lib) close()       { l.cancel(); l.c.Close() }
func (l *lib) state() state {
	if l.poll {
		select {
		case <-l.ready:
		default:
			return nil
		}
		if err := l.c.Poll(); err != nil {
			return nil
		}
	}
	if !l.synced.Load() {
		return nil
	}
	s := state{}
	for _, x := range l.c.Leaves() {
		s[key(x.Path)] = canon(x.Val)
	}
	return s
}

// ---- the CLI ---------------------------------------------------------------

// cli is an invocation of the CLI.
type cli struct {
	p    *proc
	name string
	show string // display
	d    string // delimiter
}

var cliN struct {
	sync.Mutex
	n int
}

// display types and the rendering of values in them
var forms = map[string]string{"g": "g", "group": "g", "s": "s", "single": "s", "p": "c", "proto": "c", "sp": "c", "shortproto": "c"}

func newCLI(r *rand.Rand, addr, target string, qs []query, typ, show string) (*cli, error) {
	c := &cli{show: show, d: "/"}
	args := []string{"-tls_skip_verify", pick(r, "-a", "-address"), addr}
	mode := map[string]gpb.SubscriptionList_Mode{"o": gpb.SubscriptionList_ONCE, "p": gpb.SubscriptionList_POLL, "s": gpb.SubscriptionList_STREAM}[typ]
	if typ == "p" && forms[show] == "g" {
		args = append(args, "-count", "2", pick(r, "-pi", "-polling_interval"), "100ms")
	}
	args = append(args, pick(r, "-dt", "-display_type"), show)
	if r.Intn(2) == 0 || forms[show] == "s" {
		c.d = pick(r, "|", "→", ";")
		args = append(args, pick(r, "-d", "-delimiter"), c.d)
	}
	via := r.Intn(4)
	// What a flag cannot say.
	for _, q := range qs {
		for _, e := range q.el {
			if strings.Contains(e.Name, c.d) || strings.ContainsAny(e.Name, ",") {
				via = 2
			}
		}
	}
	switch via {
	case 0, 1:
		c.name = "flags"
		args = append(args, pick(r, "-t", "-target"), target, pick(r, "-qt", "-query_type"),
			map[string][]string{"o": {"o", "once", "ONCE"}, "p": {"p", "polling", "POLLING"}, "s": {"s", "streaming", "STREAMING"}}[typ][r.Intn(3)])
		var fs []string
		for _, q := range qs {
			f := flagPath(q, c.d)
			if r.Intn(3) == 0 {
				f = c.d + f
			}
			fs = append(fs, f)
		}
		args = append(args, pick(r, "-q", "-query"), strings.Join(fs, ","))
	default:
		b, err := prototext.MarshalOptions{Multiline: r.Intn(2) == 0}.Marshal(request(r, target, qs, mode))
		if err != nil {
			return nil, err
		}
		if via == 2 {
			c.name = "-proto"
			args = append(args, pick(r, "-p", "-proto"), string(b))
		} else {
			c.name = "-proto_file"
			cliN.Lock()
			cliN.n++
			f := filepath.Join(tr.Dir(), "tmp", fmt.Sprintf("req%d.txt", cliN.n))
			cliN.Unlock()
			if err := os.WriteFile(f, b, 0o644); err != nil {
				return nil, err
			}
			args = append(args, "-proto_file", f)
		}
	}
	c.name = fmt.Sprintf("CLI %s -qt %s -dt %s", c.name, typ, show)
	var err error
	c.p, err = start(os.Getenv("VERIF_CLI"), args...)
	return c, err
}

func (c *cli) how() string  { return c.name }
func (c *cli) form() string { return forms[c.show] }
func (c *cli) close()       { c.p.kill() }

// state folds the output so far; the output is complete lines.
func (c *cli) state() state {
	out := c.p.out.String()
	if i := strings.LastIndex(out, "\n"); i >= 0 {
		out = out[:i+1]
	} else {
		return nil
	}
	s := state{}
	switch c.form() {
	case "s":
		for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			p, v, ok := strings.Cut(l, ", ")
			if !ok {
				s["?"+l] = ""
				continue
			}
			q := strings.Split(p, c.d)
			if v == "<nil>" {
				s.del(q)
			} else {
				s[key(q)] = bare(v)
			}
		}
	case "g":
		bs := blocks(out)
		for i, b := range bs {
			x := state{}
			if !tree(b, x) {
				return state{"?" + b: ""}
			}
			if i > 0 && !strings.Contains(c.name, " -qt s") { // a poll
				if fmt.Sprint(x) != fmt.Sprint(s) && !volatile(x, s) {
					return state{"?polls differ": ""}
				}
				s = x
				continue
			}
			for k, v := range x {
				if v == "<nil>" {
					s.del(strings.Split(k, sep))
				} else {
					s[k] = v
				}
			}
		}
	case "c":
		for _, m := range messages(out) {
			r := &gpb.SubscribeResponse{}
			if err := prototext.Unmarshal([]byte(m), r); err != nil {
				return state{"?" + err.Error() + m: ""}
			}
			s.take(r.GetUpdate())
		}
	}
	return s
}

// volatile says that a and b differ in the collector's metadata only.
func volatile(a, b state) bool {
	strip := func(s state) string {
		r := state{}
		for k, v := range s {
			if p := strings.Split(k, sep); len(p) < 2 || p[1] != "meta" {
				r[k] = v
			}
		}
		return fmt.Sprint(r)
	}
	return strip(a) == strip(b)
}

// take folds a notification: its updates, then its deletions.
func (s state) take(n *gpb.Notification) {
	pre := []string{}
	if t := n.GetPrefix().GetTarget(); t != "" {
		pre = append(pre, t)
	}
	if o := n.GetPrefix().GetOrigin(); o != "" {
		pre = append(pre, o)
	}
	ix := func(p *gpb.Path) []string {
		if len(p.GetElem()) == 0 {
			return p.GetElement()
		}
		return index(p.GetElem())
	}
	pre = append(pre, ix(n.GetPrefix())...)
	for _, u := range n.GetUpdate() {
		s[key(append(append([]string{}, pre...), ix(u.GetPath())...))] = canon(native(u.GetVal()))
	}
	for _, d := range n.GetDelete() {
		s.del(append(append([]string{}, pre...), ix(d)...))
	}
}

// blocks splits the output of group displays.
func blocks(out string) (r []string) {
	var b strings.Builder
	for _, l := range strings.SplitAfter(out, "\n") {
		b.WriteString(l)
		if l == "}\n" {
			r = append(r, b.String())
			b.Reset()
		}
	}
	return r // an incomplete block is not there yet
}

// tree reads a block.
func tree(b string, s state) bool {
	var path []string
	ls := strings.Split(strings.TrimSuffix(b, "\n"), "\n")
	if len(ls) < 2 || ls[0] != "{" {
		return false
	}
	for _, l := range ls[1:] {
		t := strings.TrimLeft(l, " ")
		if t == "" {
			continue
		}
		if t == "}" || t == "}," {
			if len(path) == 0 {
				return true
			}
			path = path[:len(path)-1]
			continue
		}
		q, err := strconv.QuotedPrefix(t)
		if err != nil {
			return false
		}
		k, err := strconv.Unquote(q)
		if err != nil || !strings.HasPrefix(t[len(q):], ": ") || len(l)-len(t) != 2*(len(path)+1) {
			return false
		}
		v := strings.TrimSuffix(t[len(q)+2:], ",")
		path = append(path, k)
		if v == "{" {
			continue
		}
		s[key(path)] = bare(v)
		path = path[:len(path)-1]
	}
	return true
}

// messages splits the output of proto displays: a message is one line, or
// fields that start in the first column and end with a brace there.
func messages(out string) (r []string) {
	var b strings.Builder
	for _, l := range strings.SplitAfter(out, "\n") {
		b.WriteString(l)
		switch {
		case l == "}\n", !strings.HasPrefix(l, " ") && !strings.HasSuffix(l, "{\n") && strings.TrimSpace(l) != "":
			r = append(r, b.String())
			b.Reset()
		}
	}
	return r
}
