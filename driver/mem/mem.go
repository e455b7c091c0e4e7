// Package mem is the storage the checks hand to the system under test: an
// implementation of the storage contract (reference chains plus directed
// edges over numbered nodes) that can be cloned, can shuffle neighbour lists,
// can number nodes in unusual ways, can record every call and can fail any
// call. spec/Store.tla is the specification of its fault-free behaviour.
package mem

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
)

type node struct {
	owner      *Store
	prev, next uint
	src, tgt   []uint
}

// Store is the plain contents. Clones share nodes until one side writes.
type Store struct {
	nodes   []*node
	order   []uint // identifiers still to hand out in "perm" mode
	nextID  uint
	alloc   string
	rng     *rand.Rand
	Version uint64 // number of changes made to the contents so far
}

var errNoNode = errors.New("mem: no such node")

func NewStore(alloc string, seed int64) *Store {
	s := &Store{alloc: alloc, nextID: 1, rng: rand.New(rand.NewSource(seed))}
	s.nodes = []*node{{owner: s}}
	if alloc == "perm" {
		const span = 1 << 15
		for _, k := range Shuffled(s.rng, span) {
			s.order = append(s.order, uint(k)+9)
		}
	}
	if alloc == "desc" {
		for k := 1 << 15; k >= 9; k-- {
			s.order = append(s.order, uint(k))
		}
	}
	return s
}

// Shuffled is a permutation of n numbers: of all of them, or only of a few neighbours at a time,
// which keeps the nodes of one item next to each other in every order.
func Shuffled(rng *rand.Rand, n int) []int {
	if rng.Intn(2) == 0 {
		return rng.Perm(n)
	}
	window := 2 + rng.Intn(7)
	out := make([]int, 0, n)
	for at := 0; at < n; at += window {
		if window > n-at {
			window = n - at
		}
		for _, k := range rng.Perm(window) {
			out = append(out, at+k)
		}
	}
	return out
}

func (s *Store) Clone() *Store {
	c := &Store{nextID: s.nextID, alloc: s.alloc, rng: rand.New(rand.NewSource(1)), Version: s.Version}
	c.nodes = append([]*node(nil), s.nodes...)
	c.order = s.order
	// neither side owns the shared nodes from now on
	ghost := &Store{}
	for _, n := range s.nodes {
		if n != nil && n.owner == s {
			n.owner = ghost
		}
	}
	return c
}

func (s *Store) get(id uint) (*node, error) {
	if id >= uint(len(s.nodes)) || s.nodes[id] == nil {
		return nil, errNoNode
	}
	return s.nodes[id], nil
}

func (s *Store) own(id uint) (*node, error) {
	n, err := s.get(id)
	if err != nil {
		return nil, err
	}
	if n.owner != s {
		n = &node{owner: s, prev: n.prev, next: n.next, src: append([]uint(nil), n.src...), tgt: append([]uint(nil), n.tgt...)}
		s.nodes[id] = n
	}
	return n, nil
}

func (s *Store) Has(id uint) bool { _, err := s.get(id); return err == nil && id != 0 }

func (s *Store) Max() uint { return uint(len(s.nodes)) - 1 }

func (s *Store) Create() uint {
	var id uint
	switch {
	case s.nextID <= 8:
		id = s.nextID
		s.nextID++
	case s.alloc == "gap":
		id = s.nextID + uint(s.rng.Intn(5))
		s.nextID = id + 1
	case len(s.order) > 0:
		id = s.order[0]
		s.order = s.order[1:]
	default:
		id = s.nextID
		s.nextID++
	}
	if s.Has(id) {
		return s.Create() // taken by a loaded store
	}
	s.Put(id)
	s.Version++
	return id
}

// Put makes a node with a given identifier (used to load prepared stores).
func (s *Store) Put(id uint) {
	for uint(len(s.nodes)) <= id {
		s.nodes = append(s.nodes, nil)
	}
	s.nodes[id] = &node{owner: s}
	if s.nextID <= id && s.alloc != "perm" && s.alloc != "desc" {
		s.nextID = id + 1
	}
}

func (s *Store) SetReference(a, b uint) error {
	if _, err := s.get(b); err != nil {
		return err
	}
	n, err := s.own(a)
	if err != nil {
		return err
	}
	if n.next != b {
		n.next = b
		s.Version++
	}
	m, err := s.own(b)
	if err != nil {
		return err
	}
	if m.prev != a {
		m.prev = a
		s.Version++
	}
	return nil
}

func (s *Store) GetReference(a uint) (uint, uint, error) {
	n, err := s.get(a)
	if err != nil {
		return 0, 0, err
	}
	return n.prev, n.next, nil
}

func (s *Store) Connect(a, b uint) error {
	if _, err := s.get(b); err != nil {
		return err
	}
	n, err := s.own(a)
	if err != nil {
		return err
	}
	for _, t := range n.tgt {
		if t == b {
			return nil
		}
	}
	n.tgt = append(n.tgt, b)
	m, err := s.own(b)
	if err != nil {
		return err
	}
	m.src = append(m.src, a)
	s.Version++
	return nil
}

func without(l []uint, x uint) []uint {
	out := make([]uint, 0, len(l))
	for _, v := range l {
		if v != x {
			out = append(out, v)
		}
	}
	return out
}

func (s *Store) Disconnect(a, b uint) error {
	n, err := s.own(a)
	if err != nil {
		return err
	}
	n.tgt = without(n.tgt, b)
	m, err := s.own(b)
	if err != nil {
		return err
	}
	m.src = without(m.src, a)
	s.Version++
	return nil
}

func (s *Store) Delete(a uint) error {
	n, err := s.own(a)
	if err != nil {
		return err
	}
	for _, t := range append([]uint(nil), n.tgt...) {
		_ = s.Disconnect(a, t)
	}
	for _, t := range append([]uint(nil), n.src...) {
		_ = s.Disconnect(t, a)
	}
	s.nodes[a] = nil
	s.Version++
	return nil
}

func (s *Store) Sources(a uint) ([]uint, error) {
	n, err := s.get(a)
	if err != nil {
		return []uint{}, err
	}
	return append([]uint{}, n.src...), nil
}

func (s *Store) Targets(a uint) ([]uint, error) {
	n, err := s.get(a)
	if err != nil {
		return []uint{}, err
	}
	return append([]uint{}, n.tgt...), nil
}

// Ranks numbers the nodes one after the other, in the order of their numbers.
func (s *Store) Ranks() map[uint]uint {
	rank := map[uint]uint{}
	for id := uint(1); id < uint(len(s.nodes)); id++ {
		if s.nodes[id] != nil {
			rank[id] = uint(len(rank)) + 1
		}
	}
	return rank
}

// Dump lists references and edges of all nodes as parallel lists; nodes go by their rank.
func (s *Store) Dump() map[string]interface{} {
	rank := s.Ranks()
	ranks := func(l []uint) []uint {
		out := make([]uint, len(l))
		for i, x := range l {
			out[i] = rank[x]
		}
		return out
	}
	prev, next := []uint{}, []uint{}
	tgt, src := [][]uint{}, [][]uint{}
	for id := 1; id < len(s.nodes); id++ {
		n := s.nodes[id]
		if n == nil {
			continue
		}
		prev, next = append(prev, rank[n.prev]), append(next, rank[n.next])
		tgt = append(tgt, ranks(n.tgt))
		src = append(src, ranks(n.src))
	}
	return map[string]interface{}{"prev": prev, "next": next, "tgt": tgt, "src": src}
}

// Backend is what a Wrap drives: a Store through Plain, or clew.
type Backend interface {
	Has(source uint) (bool, error)
	Create() (uint, error)
	ReadSources(target uint) ([]uint, error)
	ReadTargets(source uint) ([]uint, error)
	SetReference(source uint, reference uint) error
	GetReference(source uint) (uint, uint, error)
	Connect(source uint, target uint) error
	Disconnect(source uint, target uint) error
	Delete(source uint) error
}

// Plain adapts a Store to the contract.
type Plain struct{ S *Store }

func (p Plain) Has(a uint) (bool, error)                { return p.S.Has(a), nil }
func (p Plain) Create() (uint, error)                   { return p.S.Create(), nil }
func (p Plain) ReadSources(a uint) ([]uint, error)      { return p.S.Sources(a) }
func (p Plain) ReadTargets(a uint) ([]uint, error)      { return p.S.Targets(a) }
func (p Plain) SetReference(a, b uint) error            { return p.S.SetReference(a, b) }
func (p Plain) GetReference(a uint) (uint, uint, error) { return p.S.GetReference(a) }
func (p Plain) Connect(a, b uint) error                 { return p.S.Connect(a, b) }
func (p Plain) Disconnect(a, b uint) error              { return p.S.Disconnect(a, b) }
func (p Plain) Delete(a uint) error                     { return p.S.Delete(a) }

// Wide hands out the numbers of a Backend above 8 as numbers that use all 64 bits:
// they look alike to anything that keeps the low or the high half of a number only,
// or turns it into a signed or a floating-point one.
type Wide struct{ B Backend }

func Widen(a uint) uint {
	if a <= 8 {
		return a
	}
	return 1<<63 | a/2<<33 | a%2
}

func Narrow(a uint) uint {
	if a <= 8 {
		return a
	}
	if n := a<<1>>34*2 + a&1; n > 8 && Widen(n) == a {
		return n
	}
	return 1 << 40 // no such node
}

func widenAll(l []uint, err error) ([]uint, error) {
	for i := range l {
		l[i] = Widen(l[i])
	}
	return l, err
}

func (w Wide) Has(a uint) (bool, error) { return w.B.Has(Narrow(a)) }
func (w Wide) Create() (uint, error) {
	a, err := w.B.Create()
	return Widen(a), err
}
func (w Wide) ReadSources(a uint) ([]uint, error) { return widenAll(w.B.ReadSources(Narrow(a))) }
func (w Wide) ReadTargets(a uint) ([]uint, error) { return widenAll(w.B.ReadTargets(Narrow(a))) }
func (w Wide) SetReference(a, b uint) error       { return w.B.SetReference(Narrow(a), Narrow(b)) }
func (w Wide) GetReference(a uint) (uint, uint, error) {
	p, n, err := w.B.GetReference(Narrow(a))
	return Widen(p), Widen(n), err
}
func (w Wide) Connect(a, b uint) error    { return w.B.Connect(Narrow(a), Narrow(b)) }
func (w Wide) Disconnect(a, b uint) error { return w.B.Disconnect(Narrow(a), Narrow(b)) }
func (w Wide) Delete(a uint) error        { return w.B.Delete(Narrow(a)) }

// Hang is the panic value raised when one API call makes too many storage calls.
type Hang struct{}

// Crash is the panic value raised at an injected process stop.
type Crash struct{}

var ErrInjected = errors.New("injected storage failure")

// Wrap counts, records, shuffles and fails the calls that reach a Backend.
type Wrap struct {
	B       Backend
	Calls   int // calls since Begin
	Limit   int
	Total   int
	Writes  int
	Creates int
	// fault: at call number FaultAt (1-based, since Begin) do FaultMode:
	// "err" fails without effect, "lost" takes effect and then fails,
	// "crash" stops the caller before the call takes effect,
	// "part" fails a read that hands over its answer all the same,
	// "from" fails this and every later call.
	FaultAt   int
	FaultMode string
	// where each call since Begin comes from, when Trace is on; odd for writes
	Trace   bool
	Sites   []uint64
	Fired   bool
	FiredOn string
	Shuffle *rand.Rand
	Reverse bool
	Record  bool
	Log     [][]int // [1,k] [2,a,b] [3,a,b] [4,a,b] [5,a,0]; nodes go by the order of their creation
	seq     map[uint]int
	Pause   func() // called before every call takes place
}

// Know makes a node of a loaded store the next one in the order of creation.
func (w *Wrap) Know(id uint) {
	if w.seq == nil {
		w.seq = map[uint]int{}
	}
	if w.seq[id] == 0 {
		w.seq[id] = len(w.seq) + 1
	}
}

func (w *Wrap) Begin() {
	w.Sites = nil
	w.Calls = 0
	w.Creates = 0
	w.Writes = 0
	w.Fired = false
	w.FiredOn = ""
}

// site is a number for the chain of callers.
func site() uint64 {
	var pcs [64]uintptr
	h := uint64(14695981039346656037)
	for _, pc := range pcs[:runtime.Callers(3, pcs[:])] {
		h = (h ^ uint64(pc)) * 1099511628211
	}
	return h
}

// enter returns (fail, effect): whether to fail and whether to take effect first.
func (w *Wrap) enter(what string, write bool) (bool, bool) {
	if w.Pause != nil {
		w.Pause()
	}
	w.Calls++
	w.Total++
	if w.Trace {
		h := site() << 1
		if write {
			h |= 1
		}
		w.Sites = append(w.Sites, h)
	}
	if write {
		w.Writes++
	}
	if w.Limit > 0 && w.Calls > w.Limit {
		panic(Hang{})
	}
	if w.FaultAt > 0 && (w.Calls == w.FaultAt || (w.FaultMode == "from" && w.Calls > w.FaultAt)) {
		w.Fired = true
		w.FiredOn = what
		switch w.FaultMode {
		case "crash":
			panic(Crash{})
		case "lost", "part":
			return true, true
		default:
			return true, false
		}
	}
	return false, true
}

func (w *Wrap) note(row ...int) {
	if w.Record {
		w.Log = append(w.Log, row)
	}
}

func (w *Wrap) order(l []uint, err error) ([]uint, error) {
	if err != nil {
		return l, err
	}
	if w.Reverse {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	if w.Shuffle != nil {
		w.Shuffle.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	return l, nil
}

func (w *Wrap) Has(a uint) (bool, error) {
	if fail, effect := w.enter("Has", false); fail {
		if effect {
			has, _ := w.B.Has(a)
			return has, ErrInjected
		}
		return false, ErrInjected
	}
	return w.B.Has(a)
}

func (w *Wrap) Create() (uint, error) {
	fail, effect := w.enter("Create", true)
	var id uint
	var err error
	if effect {
		id, err = w.B.Create()
		if err == nil {
			w.Know(id)
			w.note(1, w.seq[id])
			w.Creates++
		}
	}
	if fail {
		return 0, ErrInjected
	}
	return id, err
}

func (w *Wrap) ReadSources(a uint) ([]uint, error) {
	if fail, effect := w.enter("ReadSources", false); fail {
		if effect {
			l, _ := w.order(w.B.ReadSources(a))
			return l, ErrInjected
		}
		return []uint{}, ErrInjected
	}
	return w.order(w.B.ReadSources(a))
}

func (w *Wrap) ReadTargets(a uint) ([]uint, error) {
	if fail, effect := w.enter("ReadTargets", false); fail {
		if effect {
			l, _ := w.order(w.B.ReadTargets(a))
			return l, ErrInjected
		}
		return []uint{}, ErrInjected
	}
	return w.order(w.B.ReadTargets(a))
}

func (w *Wrap) SetReference(a, b uint) error {
	return w.write(2, "SetReference", a, b, w.B.SetReference)
}

func (w *Wrap) GetReference(a uint) (uint, uint, error) {
	if fail, effect := w.enter("GetReference", false); fail {
		if effect {
			p, n, _ := w.B.GetReference(a)
			return p, n, ErrInjected
		}
		return 0, 0, ErrInjected
	}
	return w.B.GetReference(a)
}

func (w *Wrap) Connect(a, b uint) error    { return w.write(3, "Connect", a, b, w.B.Connect) }
func (w *Wrap) Disconnect(a, b uint) error { return w.write(4, "Disconnect", a, b, w.B.Disconnect) }
func (w *Wrap) Delete(a uint) error {
	return w.write(5, "Delete", a, 0, func(a, _ uint) error { return w.B.Delete(a) })
}

func (w *Wrap) write(code int, what string, a, b uint, f func(a, b uint) error) error {
	fail, effect := w.enter(what, true)
	if effect {
		err := f(a, b)
		if err == nil {
			w.note(code, w.seq[a], w.seq[b])
		} else if !fail {
			return err
		}
	}
	if fail {
		return ErrInjected
	}
	return nil
}

func (w *Wrap) String() string { return fmt.Sprintf("calls=%d", w.Calls) }
