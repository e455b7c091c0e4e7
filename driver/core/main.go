// Command core runs scripts of API calls against the real semnet code and
// writes what it observed, for TLC to judge. It contains no expectations.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mem-memov/clew"
	"github.com/mem-memov/semnet"

	"semnetdriver/mem"
)

// agg is the navigation interface of a remark, whatever its declared name is.
type agg[A any] interface {
	GetIdentifier() uint
	HasNextRemark() (bool, error)
	GetNextRemark() (A, error)
	HasNextFact() (bool, error)
	GetNextFact() (A, error)
	GetFirstFact() (A, error)
	HasNextStory() (bool, error)
	GetNextStory() (A, error)
	GetObjectAndProperty() (string, string, error)
	AddRemarkToFact(property string) (A, error)
	AddFactToStory(object string, property string) (A, error)
	CreateChildStory(object string, property string) (A, error)
}

// result codes
const (
	ok      = 1
	failed  = 0
	unknown = -1 // a remark identifier never handed out before
	paniced = -2
	hung    = -3
)

type storageSpec struct {
	Kind    string  `json:"kind"`  // mem, clew
	Alloc   string  `json:"alloc"` // seq, gap, perm, desc
	Seed    int64   `json:"seed"`
	Shuffle int64   `json:"shuffle"` // 0: insertion order, -1: reversed, else seed
	Load    *golden `json:"load"`
	Log     bool    `json:"log"`
	Wide    bool    `json:"wide"` // hand out numbers far beyond 32 bits
}

// golden is a prepared store: nodes in creation order, references, edges.
type golden struct {
	N       uint      `json:"n"`
	Refs    [][2]uint `json:"refs"`
	Edges   [][2]uint `json:"edges"`
	Remarks []uint    `json:"remarks"`
	Ops     []tellOp  `json:"ops"`   // the history the store tells, passed on to the trace
	Renum   int64     `json:"renum"` // 0: keep numbers, else seed for renumbering nodes above 8
}

type tellOp struct {
	C string `json:"c"`
	H int    `json:"h"`
	O int    `json:"o"`
	P int    `json:"p"`
}

type step struct {
	C     string `json:"c"`
	H     int    `json:"h"`
	O     int    `json:"o"`
	P     int    `json:"p"`
	V     string `json:"v"`
	G     int    `json:"g"`
	M     int    `json:"m"`
	Then  []step `json:"then"`
	Max   int    `json:"max"`
	Modes string `json:"modes"`
	Warm  bool   `json:"warm"`
	Seed  int64  `json:"seed"`
	Ids   []uint `json:"ids"`
	In    int    `json:"in"` // which of several worlds
}

type run struct {
	Storage storageSpec `json:"storage"`
	Steps   []step      `json:"steps"`
	// several storages in one run: used in turn ("turn"), at the same time with
	// changes at storage calls ("mesh"), or really at the same time ("par")
	Worlds  []storageSpec `json:"worlds"`
	Mode    string        `json:"mode"`
	Seed    int64         `json:"seed"`
	Readers int           `json:"readers"`
	// results of operations in a row are reported as one event
	Bulk bool `json:"bulk"`
}

type job struct {
	Texts [][]rune `json:"texts"`
	Runs  []run    `json:"runs"`
	Limit int      `json:"limit"`
}

type event map[string]interface{}

type outRun struct {
	Ev []event `json:"ev"`
}

// interner numbers texts, rows and tables across all runs of a job.
type interner struct {
	mu    sync.Mutex
	texts []string
	tid   map[string]int
	rows  [][]int
	rid   map[string]int
	nid   map[uint]int
}

func (in *interner) text(s string) int {
	in.mu.Lock()
	defer in.mu.Unlock()
	if id, found := in.tid[s]; found {
		return id
	}
	in.texts = append(in.texts, s)
	in.tid[s] = len(in.texts)
	return len(in.texts)
}

// number is an identifier as TLC can read it.
func (in *interner) number(id uint) int {
	if id < 1<<30 {
		return int(id)
	}
	in.mu.Lock()
	defer in.mu.Unlock()
	if _, found := in.nid[id]; !found {
		in.nid[id] = 1<<30 + len(in.nid)
	}
	return in.nid[id]
}

func (in *interner) row(r []int) int {
	key := fmt.Sprint(r)
	in.mu.Lock()
	defer in.mu.Unlock()
	if id, found := in.rid[key]; found {
		return id
	}
	in.rows = append(in.rows, r)
	in.rid[key] = len(in.rows)
	return len(in.rows)
}

type remark[A any] struct {
	id  uint
	h   A
	has bool
	// a handle obtained otherwise than by creating, and kept ever since
	kept   A
	isKept bool
}

type world[A agg[A]] struct {
	start  atomic.Int64 // when the current call began, 0 between calls
	doing  atomic.Int64 // the current step
	origin *world[A]
	in     *interner
	texts  []string
	wrap   *mem.Wrap
	store  *mem.Store
	graphs map[int]*semnet.Graph
	prints map[int]*semnet.Output
	fresh  bool // use a new output for every rendering
	cur    int
	rem    []remark[A]
	byID   map[uint]int
	slots  []int
	ev     []event
	dead   bool
	limit  int
	watch  []int // of the first `since` remarks, the ones to look at
	since  int
	sink   func(event) // where events go, if not to ev
}

// asRemark dresses a handle reached by navigation as the public type.
func asRemark[A any](h A) semnet.Remark {
	var r semnet.Remark
	*(any(&r.Aggregate).(*A)) = h
	return r
}

func guard(f func() error) (code int) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case mem.Hang:
				code = hung
			default:
				code = paniced
			}
		}
	}()
	if err := f(); err != nil {
		return failed
	}
	return ok
}

func (w *world[A]) call(f func() error) int {
	w.wrap.Begin()
	w.clock().Store(time.Now().UnixNano())
	code := guard(f)
	w.clock().Store(0)
	if code == hung {
		w.dead = true
	}
	return code
}

// clock is the one the watchdog looks at; clones share their original's.
func (w *world[A]) clock() *atomic.Int64 {
	if w.origin != nil {
		return &w.origin.start
	}
	return &w.start
}

func (w *world[A]) emit(e event) {
	if w.sink != nil {
		w.sink(e)
		return
	}
	w.ev = append(w.ev, e)
}

func (w *world[A]) graph() *semnet.Graph {
	g, found := w.graphs[w.cur]
	if !found {
		g = semnet.NewGraph(w.wrap)
		w.graphs[w.cur] = g
	}
	return g
}

func (w *world[A]) output() *semnet.Output {
	if w.fresh {
		return semnet.NewOutput(w.graph())
	}
	o, found := w.prints[w.cur]
	if !found {
		o = semnet.NewOutput(w.graph())
		w.prints[w.cur] = o
	}
	return o
}

// ref turns the outcome of a call that returns a remark into a code.
func (w *world[A]) ref(f func() (A, error)) (int, A) {
	var got A
	var id uint
	code := w.call(func() error {
		var err error
		got, err = f()
		if err != nil {
			return err
		}
		id = got.GetIdentifier()
		return nil
	})
	if code != ok {
		return code, got
	}
	if idx, found := w.byID[id]; found {
		return idx, got
	}
	return unknown, got
}

func (w *world[A]) flag(f func() (bool, error)) int {
	var v bool
	code := w.call(func() error {
		var err error
		v, err = f()
		return err
	})
	if code != ok {
		return code - 1 // error -1, panic -3, hang -4
	}
	if v {
		return 1
	}
	return 0
}

func (w *world[A]) story(h A) int {
	var s string
	code := w.call(func() error {
		var err error
		s, err = w.output().GetStory(asRemark(h))
		return err
	})
	if code != ok {
		return code
	}
	return w.in.text(s)
}

// row observes one remark through handle h:
// object, property, hasNextFact, nextFact, firstFact, hasNextStory, nextStory,
// hasNextRemark, nextRemark, rendered story, own identifier.
func (w *world[A]) row(h A) (int, map[int]A) {
	nav := map[int]A{}
	r := make([]int, 11)
	var o, p string
	code := w.call(func() error {
		var err error
		o, p, err = h.GetObjectAndProperty()
		return err
	})
	if code == ok {
		r[0], r[1] = w.in.text(o), w.in.text(p)
	} else {
		r[0], r[1] = code, code
	}
	keep := func(idx int, a A) int {
		if idx > 0 {
			if _, found := nav[idx]; !found {
				nav[idx] = a
			}
		}
		if idx == unknown {
			nav[unknown] = a
		}
		return idx
	}
	r[2] = w.flag(h.HasNextFact)
	r[3] = keep(w.ref(h.GetNextFact))
	r[4] = keep(w.ref(h.GetFirstFact))
	r[5] = w.flag(h.HasNextStory)
	r[6] = keep(w.ref(h.GetNextStory))
	r[7] = w.flag(h.HasNextRemark)
	r[8] = keep(w.ref(h.GetNextRemark))
	r[9] = w.story(h)
	self, _ := w.ref(func() (A, error) { return h, nil })
	r[10] = self
	return w.in.row(r), nav
}

func (w *world[A]) fetch(idx int) (A, int) {
	var got A
	code := w.call(func() error {
		rem, err := w.graph().GetRemark(w.rem[idx-1].id)
		if err != nil {
			return err
		}
		got = any(rem.Aggregate).(A)
		return nil
	})
	return got, code
}

// navigate looks for remark idx among the handles reachable from the others; all
// ways of getting there take turns, and so do the handles to start from.
func (w *world[A]) navigate(idx int) (A, bool) {
	var none A
	turn := idx + len(w.slots)
	start := func(i int) (A, int) {
		if turn%2 == 0 {
			return w.handle(i, "h")
		}
		return w.fetch(i)
	}
	kinds := [][]A{nil, nil, nil, nil}
	for i := range w.rem {
		h, code := start(i + 1)
		if code != ok || w.dead {
			continue
		}
		for k, f := range []func() (A, error){h.GetFirstFact, h.GetNextFact, h.GetNextStory, h.GetNextRemark} {
			at, got := w.ref(f)
			if at == idx {
				kinds[k] = append(kinds[k], got)
			}
		}
	}
	for k := range kinds {
		if some := kinds[(turn/2+k)%len(kinds)]; len(some) > 0 {
			got := some[turn%len(some)]
			// once more through the handle just reached, when that leads back here
			if turn%3 == 0 {
				if at, again := w.ref(got.GetFirstFact); at == idx {
					return again, true
				}
			}
			return got, true
		}
	}
	return none, false
}

func (w *world[A]) handle(idx int, via string) (A, int) {
	r := w.rem[idx-1]
	switch via {
	case "n":
		if h, found := w.navigate(idx); found {
			return h, ok
		}
		return w.fetch(idx)
	case "g", "b":
		return w.fetch(idx)
	case "k":
		if r.isKept {
			return r.kept, ok
		}
		h, code := w.fetch(idx)
		if code == ok {
			w.keep(idx, h)
		}
		return h, code
	default:
		if r.has {
			return r.h, ok
		}
		return w.fetch(idx)
	}
}

func (w *world[A]) keep(idx int, h A) {
	if !w.rem[idx-1].isKept {
		w.rem[idx-1].kept, w.rem[idx-1].isKept = h, true
	}
}

func (w *world[A]) register(id uint, h A, has bool) int {
	w.rem = append(w.rem, remark[A]{id: id, h: h, has: has})
	w.byID[id] = len(w.rem)
	return len(w.rem)
}

// apply performs one creating operation; the result is the index of the new
// remark, 0 for an error, -1 if the identifier was handed out before.
func (w *world[A]) apply(s step, h A) (int, uint) {
	var o, p string
	if s.O > 0 {
		o = w.texts[s.O-1]
	}
	if s.P > 0 {
		p = w.texts[s.P-1]
	}
	var got A
	var id uint
	code := w.call(func() error {
		var err error
		switch s.C {
		case "cs":
			var rem semnet.Remark
			rem, err = w.graph().CreateStory(o, p)
			if err == nil {
				got = any(rem.Aggregate).(A)
			}
		case "ar":
			got, err = h.AddRemarkToFact(p)
		case "af":
			got, err = h.AddFactToStory(o, p)
		case "cc":
			got, err = h.CreateChildStory(o, p)
		}
		if err != nil {
			return err
		}
		id = got.GetIdentifier()
		return nil
	})
	if code != ok {
		return code, 0
	}
	if _, found := w.byID[id]; found {
		return unknown, id
	}
	return w.register(id, got, true), id
}

func (w *world[A]) slot(h int) int {
	if h < 1 || h > len(w.slots) {
		return 0
	}
	return w.slots[h-1]
}

func (w *world[A]) version() int {
	if w.store == nil {
		return 0
	}
	return int(w.store.Version)
}

func isOp(c string) bool { return c == "cs" || c == "ar" || c == "af" || c == "cc" }

func (w *world[A]) table(v string, subset []int) []int {
	rows := []int{}
	w.fresh = v == "g"
	idxs := subset
	if idxs == nil {
		idxs = w.watched()
	}
	if v == "n" {
		navs := map[int]A{}
		for _, i := range idxs {
			h, code := w.fetch(i)
			if code != ok {
				continue
			}
			_, nav := w.row(h)
			for k, a := range nav {
				if _, found := navs[k]; !found && k > 0 {
					navs[k] = a
				}
			}
			if w.dead {
				break
			}
		}
		for _, i := range idxs {
			h, found := navs[i]
			if !found || w.dead {
				rows = append(rows, 0)
				continue
			}
			w.keep(i, h)
			id, _ := w.row(h)
			rows = append(rows, id)
		}
		return rows
	}
	for _, i := range idxs {
		if w.dead {
			rows = append(rows, 0)
			continue
		}
		h, code := w.handle(i, v)
		if code != ok {
			rows = append(rows, w.in.row([]int{code, code, code - 1, code, code, code - 1, code, code - 1, code, code, code}))
			continue
		}
		id, _ := w.row(h)
		rows = append(rows, id)
	}
	return rows
}

// adopt registers remarks that became reachable without having been handed out.
func (w *world[A]) adopt() {
	for n := 0; n < 4; n++ {
		found := false
		for _, i := range w.watched() {
			h, code := w.fetch(i)
			if code != ok || w.dead {
				continue
			}
			_, nav := w.row(h)
			if a, has := nav[unknown]; has {
				w.register(a.GetIdentifier(), a, true)
				found = true
				break
			}
		}
		if !found {
			return
		}
	}
}

// watched are the remarks to look at: all of them, or the chosen ones of the
// first `since` and all later ones.
func (w *world[A]) watched() []int {
	idxs := []int{}
	if w.since > 0 {
		idxs = append(idxs, w.watch...)
	}
	for i := w.since; i < len(w.rem); i++ {
		idxs = append(idxs, i+1)
	}
	return idxs
}

func (w *world[A]) clone() *world[A] {
	c := &world[A]{origin: w, in: w.in, texts: w.texts, byID: map[uint]int{}, graphs: map[int]*semnet.Graph{}, prints: map[int]*semnet.Output{}, limit: w.limit}
	c.store = w.store.Clone()
	c.wrap = &mem.Wrap{B: mem.Plain{S: c.store}, Limit: w.limit, Reverse: w.wrap.Reverse}
	if w.wrap.Shuffle != nil {
		c.wrap.Shuffle = rand.New(rand.NewSource(int64(len(w.rem)) + 1))
	}
	if _, wide := w.wrap.B.(mem.Wide); wide {
		c.wrap.B = mem.Wide{B: c.wrap.B}
	}
	for _, r := range w.rem {
		c.rem = append(c.rem, remark[A]{id: r.id})
		c.byID[r.id] = len(c.rem)
	}
	c.slots = append([]int(nil), w.slots...)
	return c
}

func (w *world[A]) reopen() {
	w.graphs = map[int]*semnet.Graph{}
	w.prints = map[int]*semnet.Output{}
	for i := range w.rem {
		w.rem[i].has = false
		w.rem[i].isKept = false
	}
}

// follow performs further operations (skipping those whose slot is empty) and
// returns their results.
func (w *world[A]) follow(steps []step) []int {
	res := []int{}
	for _, s := range steps {
		var h A
		if s.C != "cs" {
			idx := s.H
			if idx < 1 || idx > len(w.rem) || w.dead {
				res = append(res, -9)
				continue
			}
			var code int
			h, code = w.handle(idx, "g")
			if code != ok {
				res = append(res, -8)
				continue
			}
		}
		r, _ := w.apply(s, h)
		res = append(res, r)
	}
	return res
}

func (w *world[A]) prepare(s step) (A, int) {
	var h A
	if s.C == "cs" {
		return h, ok
	}
	return w.fetch(s.H)
}

// points chooses at which of n storage calls to interfere: all of them, or max,
// which take turns between the places the calls come from; of each place the
// last call, others, and the first.
func (w *world[A]) points(sites []uint64, max int, seed int64, writes bool) []int {
	n := len(sites)
	pts := []int{}
	if max <= 0 || n <= max {
		for k := 1; k <= n; k++ {
			pts = append(pts, k)
		}
		return pts
	}
	rng := rand.New(rand.NewSource(seed))
	seen := map[int]bool{}
	// always the very last calls (where the new remark is being attached)
	for k := n; k > n-max/4 && k > n-20 && k >= 1; k-- {
		seen[k] = true
	}
	at := map[uint64][]int{}
	order := []uint64{}
	for i, h := range sites {
		if at[h] == nil {
			order = append(order, h)
		}
		at[h] = append(at[h], i+1)
	}
	rng.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	if writes {
		// what is stored changes at writes only
		sort.SliceStable(order, func(i, j int) bool { return order[i]&1 > order[j]&1 })
	}
	for turn := 0; len(seen) < max; turn++ {
		for _, h := range order {
			if len(seen) >= max {
				break
			}
			l := at[h]
			switch turn {
			case 0:
				seen[l[len(l)-1]] = true
			case 2:
				seen[l[0]] = true
			default:
				seen[l[rng.Intn(len(l))]] = true
			}
		}
	}
	for k := 1; k <= n; k++ {
		if seen[k] {
			pts = append(pts, k)
		}
	}
	return pts
}

// crashSweep interrupts operation s at every storage call and retries it.
func (w *world[A]) crashSweep(s step) {
	inner := s
	inner.C = s.V
	if inner.C != "cs" {
		inner.H = w.slot(s.H)
		if inner.H == 0 {
			return
		}
	}
	watch, since := []int(nil), 0
	fresh := func() (*world[A], A, bool) {
		c := w.clone()
		c.watch, c.since = watch, since
		if s.Warm {
			for _, i := range c.watched() {
				if h, code := c.fetch(i); code == ok {
					c.row(h)
				}
			}
		}
		h, code := c.prepare(inner)
		return c, h, code == ok
	}
	// of a large graph only the remarks that the operation makes a difference to, and some others
	if len(w.rem) > 40 {
		c, h, good := fresh()
		if !good {
			return
		}
		before := c.table("g", nil)
		c.apply(inner, h)
		after := c.table("g", nil)
		rng := rand.New(rand.NewSource(s.Seed + 2))
		for i := range before {
			if before[i] != after[i] || i == 0 || i == len(before)-1 || i+1 == inner.H || rng.Intn(len(before)) < 6 {
				watch = append(watch, i+1)
			}
		}
		since = len(w.rem)
	}
	// uninterrupted behaviour: not at all, once, twice, three times
	const most = 3
	tt, ff, uu, rr := [][]int{}, [][]int{}, [][]int{}, []int{}
	ll, vv := []int{}, [][]int{}
	sites := []uint64{}
	for times := 0; times <= most; times++ {
		c, _, good := fresh()
		c.wrap.Trace = times == 1
		if !good {
			return
		}
		r := 0
		for k := 0; k < times; k++ {
			if k > 0 {
				c.adopt()
			}
			h, code := c.prepare(inner)
			if code != ok {
				return
			}
			r, _ = c.apply(inner, h)
			if times == 1 {
				sites = c.wrap.Sites
				c.wrap.Trace = false
			}
		}
		if times > 0 {
			if r <= 0 {
				return
			}
			rr = append(rr, r)
		}
		tt = append(tt, c.table("g", nil))
		ff = append(ff, c.follow(s.Then))
		uu = append(uu, c.table("g", nil))
		c.adopt()
		late := -8
		if h, code := c.prepare(inner); code == ok {
			late, _ = c.apply(inner, h)
		}
		ll = append(ll, late)
		vv = append(vv, c.table("g", nil))
	}
	w.emit(event{"k": "base", "n": len(w.rem), "c": inner.C, "h": inner.H, "o": inner.O, "p": inner.P,
		"tt": tt, "rr": rr, "ff": ff, "uu": uu, "ll": ll, "vv": vv, "calls": len(sites)})
	base := len(w.ev)
	rng := rand.New(rand.NewSource(s.Seed + 1))
	for i, mode := range strings.Split(s.Modes, ",") {
		for _, k := range w.points(sites, s.Max, s.Seed+int64(i), mode != "err" || s.Seed%2 == 0) {
			w.passOver(s, inner, mode, k, base, fresh)
			c, h, _ := fresh()
			again := mode == "crash" || mode == "twice" || strings.HasSuffix(mode, "+")
			hits := []int{k}
			if mode == "twice" {
				hits = append(hits, 1+rng.Intn(len(sites)))
			}
			looks := [][]int{}
			res := 0
			fired := true
			for i, at := range hits {
				if i > 0 {
					var code int
					h, code = c.prepare(inner)
					if code != ok {
						looks = append(looks, []int{-8})
						break
					}
				}
				c.wrap.FaultAt, c.wrap.FaultMode = at, strings.TrimSuffix(mode, "+")
				if mode == "twice" {
					c.wrap.FaultMode = "crash"
				}
				func() {
					defer func() { _ = recover() }()
					before := len(c.rem)
					r, _ := c.apply(inner, h)
					if r > 0 && len(c.rem) > before {
						// a success that was reported nevertheless; forget it
						last := c.rem[len(c.rem)-1]
						delete(c.byID, last.id)
						c.rem = c.rem[:len(c.rem)-1]
						res = r
					}
				}()
				on := c.wrap.FiredOn
				fired = fired && c.wrap.Fired
				c.wrap.FaultAt = 0
				write := on == "Create" || on == "SetReference" || on == "Connect"
				if !fired || strings.HasPrefix(mode, "lost") && !write {
					fired = false
					break
				}
				if again {
					c.reopen()
				}
				c.dead = false
				c.adopt()
				looks = append(looks, c.table("g", nil))
			}
			if !fired {
				continue
			}
			ra := -8
			if h, code := c.prepare(inner); code == ok {
				ra, _ = c.apply(inner, h)
			}
			tb := c.table("g", nil)
			fb := c.follow(s.Then)
			ub := c.table("g", nil)
			w.emit(event{"k": "cr", "b": base, "at": hits, "m": mode, "res": res, "ta": looks, "ra": ra, "tb": tb, "fb": fb, "ub": ub})
		}
	}
}

// faultSweep fails every storage call of one API call in turn.
// passOver interrupts the operation at storage call k and goes on with other
// operations, on the same graph, on a new one, or on one opened before; the
// interrupted operation is repeated in the end.
func (w *world[A]) passOver(s, inner step, mode string, k, base int, fresh func() (*world[A], A, bool)) {
	if mode == "twice" || (k+len(mode))%2 != 0 {
		return
	}
	c, h, _ := fresh()
	again := mode == "crash" || strings.HasSuffix(mode, "+")
	if again && k%3 == 0 {
		// another graph has been open all the time
		c.cur = 2
		for _, i := range c.watched() {
			if h, code := c.fetch(i); code == ok {
				c.row(h)
			}
		}
		c.cur = 0
	}
	c.wrap.FaultAt, c.wrap.FaultMode = k, strings.TrimSuffix(mode, "+")
	res := 0
	func() {
		defer func() { _ = recover() }()
		before := len(c.rem)
		r, _ := c.apply(inner, h)
		if r > 0 && len(c.rem) > before {
			last := c.rem[len(c.rem)-1]
			delete(c.byID, last.id)
			c.rem = c.rem[:len(c.rem)-1]
			res = r
		}
	}()
	on := c.wrap.FiredOn
	c.wrap.FaultAt = 0
	write := on == "Create" || on == "SetReference" || on == "Connect"
	if !c.wrap.Fired || strings.HasPrefix(mode, "lost") && !write {
		return
	}
	if again {
		if k%3 == 0 {
			c.cur = 2
		} else {
			c.reopen()
		}
	}
	c.dead = false
	c.adopt()
	ta := c.table("g", nil)
	fa := c.follow(s.Then)
	ua := c.table("g", nil)
	c.adopt()
	late := -8
	if h, code := c.prepare(inner); code == ok {
		late, _ = c.apply(inner, h)
	}
	w.emit(event{"k": "cn", "b": base, "at": []int{k}, "m": mode, "res": res, "ta": ta, "fa": fa, "ua": ua, "la": late, "va": c.table("g", nil)})
}

func (w *world[A]) faultSweep(s step) {
	idx := 0
	if s.V != "cs" {
		idx = w.slot(s.H)
		if idx == 0 {
			return
		}
	}
	do := func(c *world[A], h A) int {
		if isOp(s.V) {
			in := s
			in.C = s.V
			r, _ := c.apply(in, h)
			if r > 0 {
				return ok
			}
			return r
		}
		return c.read(s.V, h, idx)
	}
	fresh := func() (*world[A], A, bool) {
		c := w.clone()
		var h A
		if idx == 0 {
			if s.Warm {
				for i := range c.rem {
					c.fetch(i + 1)
				}
			}
			return c, h, true
		}
		if s.V == "get" && !s.Warm {
			return c, h, true
		}
		h, code := c.fetch(idx)
		if code == ok && s.Warm {
			c.row(h)
		}
		return c, h, code == ok
	}
	c, h, good := fresh()
	if !good {
		return
	}
	c.wrap.Trace = true
	base := do(c, h)
	sites := c.wrap.Sites
	n := len(sites)
	if base != ok {
		return // the call fails by itself here; nothing to learn
	}
	for i, mode := range strings.Split(s.Modes, ",") {
		pts := w.points(sites, s.Max, s.Seed+int64(i), false)
		res := []int{}
		at := []int{}
		for _, k := range pts {
			c, h, _ := fresh()
			c.wrap.FaultAt, c.wrap.FaultMode = k, mode
			r := do(c, h)
			if !c.wrap.Fired {
				continue
			}
			if mode == "lost" && !(c.wrap.FiredOn == "Create" || c.wrap.FiredOn == "SetReference" || c.wrap.FiredOn == "Connect") {
				continue
			}
			at = append(at, k)
			res = append(res, r)
		}
		w.emit(event{"k": "fl", "c": s.V, "h": idx, "m": mode, "n": n, "at": at, "res": res})
	}
}

func (w *world[A]) do(s step) {
	switch {
	case isOp(s.C):
		var h A
		idx := 0
		if s.C != "cs" {
			idx = w.slot(s.H)
			if idx == 0 {
				w.slots = append(w.slots, 0)
				return
			}
			var code int
			h, code = w.handle(idx, s.V)
			if code != ok {
				w.slots = append(w.slots, 0)
				w.emit(event{"k": "nohandle", "h": idx, "v": s.V, "r": code})
				return
			}
		}
		r, id := w.apply(s, h)
		w.emit(event{"k": "op", "c": s.C, "h": idx, "o": s.O, "p": s.P, "r": r, "id": w.in.number(id), "m": s.M,
			"creates": w.wrap.Creates, "w": w.takeLog()})
		if r > 0 {
			w.slots = append(w.slots, r)
		} else {
			w.slots = append(w.slots, 0)
		}
	case s.C == "obs":
		v := s.V
		if v == "" {
			v = "g"
		}
		b := w.version()
		var rows []int
		if s.Max > 0 {
			// only some of many remarks: the first, the last ones, and others
			rows = make([]int, len(w.rem))
			rng := rand.New(rand.NewSource(s.Seed))
			some := map[int]bool{1: true}
			for i := len(w.rem); i > 0 && i > len(w.rem)-s.Max/4-1; i-- {
				some[i] = true
			}
			for len(some) < s.Max && len(some) < len(w.rem) {
				some[1+rng.Intn(len(w.rem))] = true
			}
			pick := []int{}
			for i := range w.rem {
				if some[i+1] {
					pick = append(pick, i+1)
				}
			}
			for k, row := range w.table(v, pick) {
				rows[pick[k]-1] = row
			}
		} else {
			rows = w.table(v, nil)
		}
		e := event{"k": "obs", "v": v, "rows": rows, "m": s.M, "b": b, "a": w.version()}
		if w.wrap.Record {
			e["w"] = w.takeLog()
		}
		w.emit(e)
	case s.C == "hit":
		w.hit(s)
	case s.C == "busy":
		w.busy(s)
	case s.C == "flaky":
		w.flaky(s)
	case s.C == "reopen":
		w.reopen()
	case s.C == "graph":
		w.cur = s.G
	case s.C == "probe":
		b := w.version()
		acc := []int{}
		unk := 0
		ids := s.Ids
		if ids == nil {
			_, wide := w.wrap.B.(mem.Wide)
			for id := uint(0); id <= w.store.Max()+3; id++ {
				ids = append(ids, id)
				if wide && id > 8 {
					ids = append(ids, mem.Widen(id))
				}
			}
			ids = append(ids, 1<<20, 1<<31, 1<<63, ^uint(0))
			if !wide {
				// numbers that some conversion would confuse with an identifier
				known := make([]uint, 0, len(w.byID))
				for id := range w.byID {
					known = append(known, id)
				}
				sort.Slice(known, func(i, j int) bool { return known[i] < known[j] })
				for _, id := range known {
					for _, shift := range []uint{16, 31, 32, 48, 63} {
						if far := id + 1<<shift; far > w.store.Max() {
							ids = append(ids, far)
						}
					}
					ids = append(ids, -id)
				}
			}
		}
		bad := 0
		for _, id := range ids {
			code := w.call(func() error { _, err := w.graph().GetRemark(id); return err })
			if code == ok {
				if idx, found := w.byID[id]; found {
					acc = append(acc, idx)
				} else {
					unk++
				}
			} else if code != failed {
				bad++
			}
			if w.dead {
				break
			}
		}
		w.emit(event{"k": "probe", "acc": acc, "unk": unk, "bad": bad, "n": len(ids), "b": b, "a": w.version()})
	case s.C == "dump":
		rank := w.store.Ranks()
		_, wide := w.wrap.B.(mem.Wide)
		ids := []uint{}
		for _, r := range w.rem {
			id := r.id
			if wide {
				id = mem.Narrow(id)
			}
			ids = append(ids, rank[id])
		}
		w.emit(event{"k": "dump", "s": w.store.Dump(), "ids": ids})
	case s.C == "count":
		n := make([]int, 8)
		for k := range n {
			if src, err := w.wrap.B.ReadSources(uint(k + 1)); err == nil {
				n[k] = len(src)
			}
		}
		w.emit(event{"k": "count", "n": n})
	case s.C == "crash":
		w.crashSweep(s)
	case s.C == "fault":
		w.faultSweep(s)
	}
}

// hit interrupts operation s.V at some storage call; what became of it stays open.
func (w *world[A]) hit(s step) {
	inner := s
	inner.C = s.V
	if inner.C != "cs" {
		inner.H = w.slot(s.H)
		if inner.H == 0 {
			return
		}
	}
	trial := w.clone()
	h, code := trial.prepare(inner)
	if code != ok {
		return
	}
	trial.apply(inner, h)
	n := trial.wrap.Calls
	if n == 0 {
		return // refused without looking at the storage
	}
	rng := rand.New(rand.NewSource(s.Seed))
	k := 1 + rng.Intn(n)
	if rng.Intn(2) == 0 {
		k = n - rng.Intn(min(n, 24))
	}
	h, code = w.prepare(inner)
	if code != ok {
		return
	}
	w.takeLog()
	w.wrap.FaultAt, w.wrap.FaultMode = k, s.Modes
	func() {
		defer func() { _ = recover() }()
		before := len(w.rem)
		r, _ := w.apply(inner, h)
		if r > 0 && len(w.rem) > before {
			last := w.rem[len(w.rem)-1]
			delete(w.byID, last.id)
			w.rem = w.rem[:len(w.rem)-1]
		}
	}()
	w.wrap.FaultAt = 0
	w.dead = false
	if s.Modes == "crash" {
		w.reopen()
	}
	w.emit(event{"k": "hit", "w": w.takeLog()})
	w.adopt()
}

var reads = []string{"text", "hnf", "nf", "ff", "hns", "ns", "hnr", "nr", "story", "get"}

// read makes one reading call.
func (w *world[A]) read(v string, h A, idx int) int {
	switch v {
	case "text":
		return w.call(func() error { _, _, err := h.GetObjectAndProperty(); return err })
	case "hnf":
		return w.call(func() error { _, err := h.HasNextFact(); return err })
	case "nf":
		return w.call(func() error { _, err := h.GetNextFact(); return err })
	case "ff":
		return w.call(func() error { _, err := h.GetFirstFact(); return err })
	case "hns":
		return w.call(func() error { _, err := h.HasNextStory(); return err })
	case "ns":
		return w.call(func() error { _, err := h.GetNextStory(); return err })
	case "hnr":
		return w.call(func() error { _, err := h.HasNextRemark(); return err })
	case "nr":
		return w.call(func() error { _, err := h.GetNextRemark(); return err })
	case "story":
		return w.call(func() error { _, err := w.output().GetStory(asRemark(h)); return err })
	case "get":
		return w.call(func() error { _, err := w.graph().GetRemark(w.rem[idx-1].id); return err })
	}
	return failed
}

// flaky makes reading calls while the storage fails, and then looks at
// everything, with the same graph and the same handle, while it works.
func (w *world[A]) flaky(s step) {
	if len(w.rem) == 0 {
		return
	}
	b := w.version()
	rng := rand.New(rand.NewSource(s.Seed))
	cur := w.cur
	w.cur = 7
	delete(w.graphs, 7)
	want := w.table("g", nil)
	w.cur = cur
	idxs := w.watched()
	tries := []event{}
	known := map[string]int{}
	note := func(v string, idx int, at []int, mode string, res int, h A, have bool) {
		w.fresh = false
		same := 0
		if !have {
			var code int
			h, code = w.fetch(idx)
			have = code == ok
		}
		if have {
			same, _ = w.row(h)
		}
		rows := w.table("g", nil)
		w.fresh = false
		key := fmt.Sprint(idx, same, rows)
		if i, found := known[key]; found {
			tries[i]["n"] = tries[i]["n"].(int) + 1
			return
		}
		known[key] = len(tries)
		place := 0
		for i, x := range idxs {
			if x == idx {
				place = i + 1
			}
		}
		tries = append(tries, event{"v": v, "h": idx, "place": place, "at": at, "m": mode, "res": res, "same": same, "rows": rows, "n": 1})
	}
	modes := strings.Split(s.Modes, ",")
	if s.V == "" {
		// several failures in a row, of any kind, through any remark
		for n := 0; n < s.Max && !w.dead; n++ {
			if !s.Warm && rng.Intn(2) == 0 {
				w.reopen()
			}
			var h A
			var idx, res int
			have := false
			at := []int{}
			what := []string{}
			mode := modes[rng.Intn(len(modes))]
			for more := 1 + rng.Intn(3); more > 0; more-- {
				idx = idxs[rng.Intn(len(idxs))]
				v := reads[rng.Intn(len(reads))]
				k := 1 + rng.Intn([]int{3, 12, 60}[rng.Intn(3)])
				have = v != "get"
				if have {
					var code int
					if h, code = w.handle(idx, "k"); code != ok {
						have = false
						break
					}
				}
				w.wrap.FaultAt, w.wrap.FaultMode = k, mode
				res = w.read(v, h, idx)
				w.wrap.FaultAt = 0
				at = append(at, k)
				what = append(what, v)
			}
			if len(at) > 0 {
				note(strings.Join(what, ","), idx, at, mode, res, h, have)
			}
		}
	} else if idx := w.slot(s.H); idx > 0 {
		other := idxs[rng.Intn(len(idxs))]
		prepare := func() (A, bool) {
			w.reopen()
			if s.Warm {
				// what another remark needs is known already
				if o, code := w.fetch(other); code == ok {
					w.row(o)
				}
			}
			if s.V == "get" {
				var none A
				return none, true
			}
			h, code := w.handle(idx, "k")
			return h, code == ok
		}
		h, good := prepare()
		if !good {
			return
		}
		w.wrap.Trace = true
		w.read(s.V, h, idx)
		sites := w.wrap.Sites
		w.wrap.Trace = false
		for i, mode := range modes {
			for _, k := range w.points(sites, s.Max, s.Seed+int64(i), false) {
				h, good := prepare()
				if !good || w.dead {
					break
				}
				w.wrap.FaultAt, w.wrap.FaultMode = k, mode
				res := w.read(s.V, h, idx)
				w.wrap.FaultAt = 0
				if w.wrap.Fired {
					note(s.V, idx, []int{k}, mode, res, h, s.V != "get")
				}
			}
		}
	}
	w.emit(event{"k": "flaky", "want": want, "tries": tries, "b": b, "a": w.version()})
}

// busy reads everything many times on the graph that is open; it reports the first
// table it gets and every further one that differs from the one before.
func (w *world[A]) busy(s step) {
	b := w.version()
	var last []int
	reported := 0
	for n := 0; n < s.Max && reported < 4 && !w.dead; n++ {
		rows := w.table("b", nil)
		if n == 0 || !equal(rows, last) {
			w.emit(event{"k": "obs", "v": "b", "rows": rows, "m": s.M, "b": b, "a": w.version()})
			reported++
		}
		last = rows
		for id := uint(0); id < 4; id++ {
			w.call(func() error { _, err := w.graph().GetRemark(id); return err })
		}
	}
	w.emit(event{"k": "obs", "v": "b", "rows": last, "m": s.M, "b": b, "a": w.version()})
}

func equal(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (w *world[A]) takeLog() [][]int {
	l := w.wrap.Log
	w.wrap.Log = nil
	if l == nil {
		l = [][]int{}
	}
	return l
}

// open is a new world over a new storage.
func open[A agg[A]](in *interner, texts []string, st storageSpec, limit int) *world[A] {
	w := &world[A]{in: in, texts: texts, byID: map[uint]int{}, graphs: map[int]*semnet.Graph{}, prints: map[int]*semnet.Output{}, limit: limit}
	var backend mem.Backend
	if st.Kind == "clew" {
		backend = clew.NewGraph(clew.NewSliceStorage())
	} else {
		w.store = mem.NewStore(st.Alloc, st.Seed)
		backend = mem.Plain{S: w.store}
	}
	if st.Wide {
		backend = mem.Wide{B: backend}
	}
	w.wrap = &mem.Wrap{B: backend, Limit: limit, Record: st.Log}
	switch {
	case st.Shuffle == -1:
		w.wrap.Reverse = true
	case st.Shuffle != 0:
		w.wrap.Shuffle = rand.New(rand.NewSource(st.Shuffle))
	}
	if st.Load != nil {
		load(w, st.Load)
	}
	return w
}

func execute[A agg[A]](in *interner, texts []string, number int, r run, limit int, none A) outRun {
	if len(r.Worlds) > 0 {
		return several(in, texts, number, r, limit, none)
	}
	w := open[A](in, texts, r.Storage, limit)
	watch.add(number, &w.start, &w.doing)
	defer watch.remove(&w.start)
	for i, s := range r.Steps {
		if !w.take(i, s) {
			break
		}
	}
	if w.ev == nil {
		w.ev = []event{}
	}
	if r.Bulk {
		w.ev = bulk(w.ev)
	}
	return outRun{Ev: w.ev}
}

func bulk(ev []event) []event {
	out := []event{}
	place := map[int]int{} // events refer to each other by number
	for i, e := range ev {
		if e["k"] != "op" {
			if e["k"] == "cr" || e["k"] == "cn" {
				e["b"] = place[e["b"].(int)]
			}
			place[i+1] = len(out) + 1
			out = append(out, e)
			continue
		}
		if n := len(out); n > 0 && out[n-1]["k"] == "ops" {
			out[n-1]["ops"] = append(out[n-1]["ops"].([]event), e)
		} else {
			out = append(out, event{"k": "ops", "ops": []event{e}})
		}
	}
	return out
}

func (w *world[A]) take(i int, s step) bool {
	if w.dead {
		w.emit(event{"k": "dead", "step": i})
		return false
	}
	w.doing.Store(int64(i))
	w.do(s)
	return true
}

// several storages in one process; every event tells to which one it belongs.
func several[A agg[A]](in *interner, texts []string, number int, r run, limit int, _ A) outRun {
	var mu sync.Mutex
	all := []event{}
	ws := make([]*world[A], len(r.Worlds))
	sink := func(k int) func(event) {
		return func(e event) {
			e["in"] = k
			mu.Lock()
			defer mu.Unlock()
			all = append(all, e)
		}
	}
	for i, st := range r.Worlds {
		ws[i] = open[A](in, texts, st, limit)
		ws[i].sink = sink(i + 1)
		watch.add(number, &ws[i].start, &ws[i].doing)
		defer watch.remove(&ws[i].start)
	}
	if r.Mode == "turn" {
		for i, s := range r.Steps {
			ws[s.In-1].take(i, s)
		}
	} else {
		tasks := make([]func(), len(ws))
		for k, w := range ws {
			tasks[k] = func() {
				for i, s := range r.Steps {
					if s.In == k+1 && !w.take(i, s) {
						break
					}
				}
			}
		}
		together(r.Mode, r.Seed, tasks, ws)
	}
	if r.Readers > 0 {
		// everybody reads, each with a graph of their own, several over every storage
		var readers []*world[A]
		var tasks []func()
		for k, w := range ws {
			if w.dead {
				continue
			}
			for n := 0; n < r.Readers; n++ {
				c := open[A](in, texts, storageSpec{}, limit)
				c.store, c.wrap.B = w.store, w.wrap.B
				c.sink = sink(k + 1)
				for _, q := range w.rem {
					c.rem = append(c.rem, remark[A]{id: q.id})
					c.byID[q.id] = len(c.rem)
				}
				c.slots = append([]int(nil), w.slots...)
				watch.add(number, &c.start, &c.doing)
				defer watch.remove(&c.start)
				readers = append(readers, c)
				tasks = append(tasks, func() {
					c.take(len(r.Steps), step{C: "obs", V: "g"})
					c.take(len(r.Steps), step{C: "obs", V: "n"})
				})
			}
		}
		together(r.Mode, r.Seed+1, tasks, readers)
	}
	return outRun{Ev: all}
}

// together runs the tasks at the same time: really ("par"), or one after the
// other with changes at storage calls only, as the seed says.
func together[A agg[A]](mode string, seed int64, tasks []func(), ws []*world[A]) {
	if mode == "par" {
		var wg sync.WaitGroup
		for _, t := range tasks {
			wg.Add(1)
			go func() { defer wg.Done(); t() }()
		}
		wg.Wait()
		return
	}
	rng := rand.New(rand.NewSource(seed))
	every := []int{1, 1, 3, 20, 200}[rng.Intn(5)]
	type note struct {
		who  int
		done bool
	}
	back := make(chan note)
	turn := make([]chan struct{}, len(tasks))
	live := []int{}
	for k, t := range tasks {
		turn[k] = make(chan struct{})
		live = append(live, k)
		ws[k].wrap.Pause = func() {
			if every > 1 && rng.Intn(every) > 0 {
				return
			}
			back <- note{k, false}
			<-turn[k]
		}
		go func() {
			<-turn[k]
			t()
			back <- note{k, true}
		}()
	}
	for len(live) > 0 {
		i := rng.Intn(len(live))
		turn[live[i]] <- struct{}{}
		if n := <-back; n.done {
			ws[n.who].wrap.Pause = nil
			live = append(live[:i], live[i+1:]...)
		}
	}
}

func load[A agg[A]](w *world[A], g *golden) {
	name := make([]uint, g.N+1)
	for i := range name {
		name[i] = uint(i)
	}
	if g.Renum != 0 {
		rng := rand.New(rand.NewSource(g.Renum))
		perm := mem.Shuffled(rng, int(g.N)*2)
		for i := uint(9); i <= g.N; i++ {
			name[i] = 9 + uint(perm[i])
		}
		// the two bits are told apart by the order of their numbers
		if g.N >= 10 {
			var bits []uint
			for _, e := range g.Edges {
				if e[1] == 1 {
					bits = append(bits, e[0])
				}
			}
			if len(bits) == 2 && (bits[0] < bits[1]) != (name[bits[0]] < name[bits[1]]) {
				name[bits[0]], name[bits[1]] = name[bits[1]], name[bits[0]]
			}
		}
	}
	for i := uint(1); i <= g.N; i++ {
		w.store.Put(name[i])
	}
	for _, r := range g.Refs {
		_ = w.store.SetReference(name[r[0]], name[r[1]])
	}
	for _, e := range g.Edges {
		_ = w.store.Connect(name[e[0]], name[e[1]])
	}
	known := append([]uint(nil), name[1:]...)
	sort.Slice(known, func(i, j int) bool { return known[i] < known[j] })
	for _, id := range known {
		if _, wide := w.wrap.B.(mem.Wide); wide {
			id = mem.Widen(id)
		}
		w.wrap.Know(id)
	}
	for _, id := range g.Remarks {
		var none A
		outer := name[id]
		if _, wide := w.wrap.B.(mem.Wide); wide {
			outer = mem.Widen(outer)
		}
		w.slots = append(w.slots, w.register(outer, none, false))
	}
	ids := []int{}
	for _, r := range w.rem {
		ids = append(ids, w.in.number(r.id))
	}
	e := event{"k": "told", "ops": g.Ops, "ids": ids}
	if w.wrap.Record {
		d := w.store.Dump()
		e["prev"], e["next"] = d["prev"], d["next"]
	}
	w.emit(e)
}

// watchdog ends the driver when one call of the real code does not come back.
type watched struct {
	run   int
	doing *atomic.Int64
}

type watchdog struct {
	mu   sync.Mutex
	runs map[*atomic.Int64]watched // by when their current call began
}

var watch = &watchdog{runs: map[*atomic.Int64]watched{}}

func (d *watchdog) add(run int, start, doing *atomic.Int64) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.runs[start] = watched{run, doing}
}

func (d *watchdog) remove(start *atomic.Int64) {
	d.mu.Lock()
	defer d.mu.Unlock()
	delete(d.runs, start)
}

func (d *watchdog) look() {
	const patience, memory = 90 * time.Second, 14 << 30
	var m runtime.MemStats
	for range time.Tick(time.Second) {
		runtime.ReadMemStats(&m)
		d.mu.Lock()
		longest, who, step := time.Duration(0), 0, int64(0)
		for start, w := range d.runs {
			if at := start.Load(); at != 0 {
				if t := time.Since(time.Unix(0, at)); t > longest {
					longest, who, step = t, w.run, w.doing.Load()
				}
			}
		}
		d.mu.Unlock()
		if longest > patience || m.HeapAlloc > memory && longest > 10*time.Second {
			fmt.Printf("STUCK run=%d step=%d after %v\n", who+1, step+1, longest)
			os.Exit(7)
		}
	}
}

func main() {
	debug.SetMaxStack(256 << 20)
	go watch.look()
	raw, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var j job
	if err := json.Unmarshal(raw, &j); err != nil {
		panic(err)
	}
	in := &interner{tid: map[string]int{}, rid: map[string]int{}, nid: map[uint]int{}}
	texts := []string{}
	for _, t := range j.Texts {
		s := string(t)
		in.text(s)
		texts = append(texts, s)
	}
	limit := j.Limit
	if limit == 0 {
		limit = 20000000
	}
	out := make([]outRun, len(j.Runs))
	var wg sync.WaitGroup
	workers := runtime.NumCPU()
	if os.Getenv("SERIAL") != "" {
		workers = 1
	}
	sem := make(chan struct{}, workers)
	for i := range j.Runs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			out[i] = execute(in, texts, i, j.Runs[i], limit, semnet.Remark{}.Aggregate)
		}(i)
	}
	wg.Wait()
	cps := make([][]int, len(in.texts))
	for i, s := range in.texts {
		cps[i] = []int{}
		for _, r := range s {
			cps[i] = append(cps[i], int(r))
		}
	}
	rows := in.rows
	if rows == nil {
		rows = [][]int{}
	}
	f, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	defer f.Close()
	enc := json.NewEncoder(f)
	if err := enc.Encode(map[string]interface{}{"texts": cps, "rows": rows, "runs": out}); err != nil {
		panic(err)
	}
}
