package main

import (
	"fmt"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine is the loaded program; immutable while exploring.
type Engine struct {
	prog     *ssa.Program
	user     map[*ssa.Package]bool // packages re-initialised on every path
	params   map[string]int
	tier     string
	fns      fnCache
	funcHits *hitSet
	maxSteps int
	mu       sync.Mutex // guards lazily built method wrappers
	symIdx   int
	allocCut uint64
}

type Decision struct {
	taken bool
	val   uint64
}

type Item struct {
	prefix []Decision
	model  map[*Term]uint64 // belongs to the creating worker
	owner  *Worker
}

type Input struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	Val  uint64 `json:"val"`
	term *Term
}

type Obs struct {
	tag string
	val Value
}

type Outcome struct {
	Kind      string // "ok", "assume", "violation", "unsupported", "budget", "cut"
	Msg       string
	Inputs    []Input
	Obs       []string
	ObsOK     bool
	Trace     []string
	Sched     bool
	Steps     int
	Where     string // innermost frame of the code under test
	Stack     []string
	Decisions []Decision
}

type Worker struct {
	id         int
	eng        *Engine
	ctx        *Ctx
	solver     *Solver
	stdGlobals map[*ssa.Global]*Value
	stdInit    map[*ssa.Package]int
	constCache map[*ssa.Const]Value
	stdPath    *Path
	st         *Stats
	methCache  map[methKey]*ssa.Function
	implCache  map[implKey]bool
	fns        map[*ssa.Function]*fnInfo
	clos       map[*ssa.Function]*Closure
	rtErrT     types.Type
}

type methKey struct {
	t  types.Type
	nm string
}
type implKey struct{ t, i types.Type }

type Stats struct {
	Paths, Done, AssumeDead, Violations, Unsupported, Budget, Cut int64
	Steps                                                         int64
	Asserts, AssertsFolded, AssertQueries                         int64
	Branches, Forks                                               int64
	UnknownBranches, UnknownAsserts                               int64
	Races                                                         int64
	Reach                                                         map[string]int64
	Reasons                                                       map[string]int64
}

// Path is one symbolic execution.
type Path struct {
	w        *Worker
	prefix   []Decision
	pos      int
	trace    []Decision
	pc       []*Term
	groups   map[*Term]*cgroup
	model    map[*Term]uint64
	memo     map[*Term]uint64
	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	steps    int
	depth    int
	inputs   []Input
	names    map[string]int
	obs      []Obs
	newItems []*Item
	fixed    map[*Term]bool // inputs with only one value left

	// scheduling
	gs        []*G
	cur       *G
	kill      chan struct{}
	done      chan *Outcome
	explore   int // >0: number of preemptions allowed (explore-1); 0: deterministic
	preempts  int
	raceOn    bool
	raceFns   func(string) bool
	raceOK    map[string]bool
	mutexes   map[*Value]*mutexState
	wgs       map[*Value]*wgState
	onces     map[*Value]*onceState
	conds     map[*Value]*condState
	atomvc    map[*Value]vclock
	races     map[*Value]*raceCell
	side      map[string]interface{}
	sha       []shaEntry
	blobs     []*jsonBlob
	events    []string
	schedN    int
	isStd     bool
	allowExit bool
	cutMsg    string
	fnSeen    map[*ssa.Function]bool
	panicAt   []string
	mapOrder  bool
	fmtConc   bool
}

type cgroup struct {
	parent *cgroup
	cons   []*Term
}

func (g *cgroup) find() *cgroup {
	for g.parent != nil {
		if g.parent.parent != nil {
			g.parent = g.parent.parent
		}
		g = g.parent
	}
	return g
}

type pathAbort struct{ out *Outcome }

func (p *Path) abort(kind, msg string) {
	panic(pathAbort{&Outcome{Kind: kind, Msg: msg}})
}

// ---------------------------------------------------------------- constraints

func (p *Path) addPC(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			p.abort("assume", "contradiction")
		}
		return
	}
	if c.op == OBAnd {
		p.addPC(c.args[0])
		p.addPC(c.args[1])
		return
	}
	p.pc = append(p.pc, c)
	p.learn(c)
	var root *cgroup
	for _, v := range c.vars {
		g := p.groups[v]
		if g == nil {
			if root == nil {
				root = &cgroup{}
			}
			p.groups[v] = root
			continue
		}
		g = g.find()
		if root == nil || root == g {
			root = g
			continue
		}
		if len(g.cons) > len(root.cons) {
			g, root = root, g
		}
		root.cons = append(root.cons, g.cons...)
		g.cons = nil
		g.parent = root
	}
	for _, v := range c.vars { // first vars may have created a fresh root merged later
		p.groups[v] = root
	}
	root.cons = append(root.cons, c)
}

// learn notes the inputs whose value the constraint determines.
func (p *Path) learn(c *Term) {
	fix := func(v *Term) {
		if p.fixed == nil {
			p.fixed = map[*Term]bool{}
		}
		p.fixed[v] = true
	}
	switch {
	case c.op == OVar:
		fix(c)
	case c.op == OBNot && c.args[0].op == OVar:
		fix(c.args[0])
	case c.op == OEq && (c.args[0].op == OConst || c.args[1].op == OConst):
		t := c.args[0]
		if t.op == OConst {
			t = c.args[1]
		}
		parts := []*Term{t}
		if t.op == OConcat {
			parts = t.args
		}
		for _, x := range parts {
			if x.op == OVar {
				fix(x)
			}
		}
	}
}

// determined: every input in c has only one value left, so the model gives the value of c.
func (p *Path) determined(c *Term) bool {
	if len(p.fixed) == 0 {
		return false
	}
	for _, v := range c.vars {
		if !p.fixed[v] {
			return false
		}
	}
	return true
}

func (p *Path) related(c *Term) []*Term {
	var out []*Term
	seen := map[*cgroup]bool{}
	for _, v := range c.vars {
		if g := p.groups[v]; g != nil {
			g = g.find()
			if !seen[g] {
				seen[g] = true
				out = append(out, g.cons...)
			}
		}
	}
	return out
}

func (p *Path) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	return evalTerm(t, p.model, p.memo)
}

// solve checks pc AND c; on sat returns the merged model.
func (p *Path) solve(c *Term) (int, map[*Term]uint64) {
	if c.IsFalse() {
		return 0, nil
	}
	if time.Now().After(runDeadline) {
		return -1, nil
	}
	cs := append(p.related(c), c)
	res, m, err := p.w.solver.Check(cs)
	if err != nil {
		panic(unsupported("solver: " + err.Error()))
	}
	if res != 1 {
		return res, nil
	}
	nm := make(map[*Term]uint64, len(p.model)+len(m))
	for k, v := range p.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[p.w.ctx.varTab[k]] = v
	}
	return 1, nm
}

func (p *Path) setModel(m map[*Term]uint64) {
	p.model = m
	p.memo = map[*Term]uint64{}
}

func (p *Path) replaying() bool { return p.pos < len(p.prefix) }

// branchVal records a binary decision on c (val is carried along for concretisation).
func (p *Path) branchVal(c *Term, val uint64) bool {
	if c.op == OConst {
		panic("branchVal on constant")
	}
	p.w.st.Branches++
	if p.determined(c) {
		return p.eval(c) == 1
	}
	if p.replaying() {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		if d.taken {
			p.addPC(c)
		} else {
			p.addPC(p.w.ctx.Not(c))
		}
		return d.taken
	}
	side := p.eval(c) == 1
	other := c
	if side {
		other = p.w.ctx.Not(c)
	}
	res, m := p.solve(other)
	switch res {
	case 1:
		p.w.st.Forks++
		if debugOn && p.cur != nil && p.cur.fr != nil {
			f := p.cur.fr
			wh := f.where()
			if f.cur != nil && f.cur.Block() != nil {
				wh += fmt.Sprintf(" in %s block %d (%s)", f.fn, f.cur.Block().Index, f.cur.Block().Comment)
			}
			p.w.st.Reasons["fork at "+wh]++
		}
		pre := make([]Decision, len(p.trace)+1)
		copy(pre, p.trace)
		pre[len(p.trace)] = Decision{!side, val}
		p.newItems = append(p.newItems, &Item{prefix: pre, model: m, owner: p.w})
	case -1:
		p.w.st.UnknownBranches++
	}
	p.trace = append(p.trace, Decision{side, val})
	if res != 0 {
		if side {
			p.addPC(c)
		} else {
			p.addPC(p.w.ctx.Not(c))
		}
	} else {
		// implied: still record it cheaply so that slices stay consistent across replays
		if side {
			p.addPC(c)
		} else {
			p.addPC(p.w.ctx.Not(c))
		}
	}
	return side
}

func (p *Path) branch(c *Term) bool {
	if c.op == OConst {
		return c.val == 1
	}
	return p.branchVal(c, 0)
}

const maxConcretise = 4096

// concretise enumerates the feasible values of t (one per path).
func (p *Path) concretise(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	for n := 0; ; n++ {
		if n > maxConcretise {
			p.abort("cut", "more than 4096 values when concretising")
		}
		if p.determined(t) {
			return p.eval(t)
		}
		var v uint64
		if p.replaying() {
			v = p.prefix[p.pos].val
		} else {
			v = p.eval(t)
		}
		eq := p.w.ctx.Eq(t, p.w.ctx.constant(t.w, v))
		if eq.op == OConst {
			if eq.val == 1 {
				return v
			}
			panic("concretise: inconsistent")
		}
		if p.branchVal(eq, v) {
			return v
		}
	}
}

func (p *Path) assume(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			p.abort("assume", "")
		}
		return
	}
	if p.replaying() {
		p.addPC(c)
		return
	}
	if p.eval(c) == 1 {
		p.addPC(c)
		return
	}
	res, m := p.solve(c)
	switch res {
	case 0:
		p.abort("assume", "")
	case -1:
		p.w.st.UnknownBranches++
		p.abort("cut", "solver unknown on assumption")
	}
	p.addPC(c)
	p.setModel(m)
}

func (p *Path) assert(c *Term, msg string) {
	p.w.st.Asserts++
	if c.IsTrue() {
		p.w.st.AssertsFolded++
		return
	}
	if p.replaying() {
		return
	}
	p.w.st.AssertQueries++
	if c.op == OConst || p.eval(c) == 0 {
		p.violation("assertion failed: " + msg)
	}
	res, m := p.solve(p.w.ctx.Not(c))
	switch res {
	case 1:
		p.addPC(p.w.ctx.Not(c))
		p.setModel(m)
		p.violation("assertion failed: " + msg)
	case -1:
		p.w.st.UnknownAsserts++
	}
}

func (p *Path) violation(msg string) {
	p.abort("violation", msg)
}

// fresh creates an input variable.
func (p *Path) fresh(name string, w uint8) *Term {
	n := p.names[name]
	p.names[name] = n + 1
	full := fmt.Sprintf("%s#%d", name, n)
	t := p.w.ctx.Var(full, w)
	p.inputs = append(p.inputs, Input{Name: name, W: w, term: t})
	return t
}

// freshInternal creates a variable that is not a replayable input.
func (p *Path) freshInternal(name string, w uint8) *Term {
	n := p.names["!"+name]
	p.names["!"+name] = n + 1
	return p.w.ctx.Var(fmt.Sprintf("!%s#%d", name, n), w)
}

// ---------------------------------------------------------------- running

func (w *Worker) newPath(it *Item) *Path {
	p := &Path{w: w, prefix: it.prefix, groups: map[*Term]*cgroup{}, names: map[string]int{},
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		mutexes: map[*Value]*mutexState{}, wgs: map[*Value]*wgState{}, onces: map[*Value]*onceState{}, conds: map[*Value]*condState{},
		atomvc: map[*Value]vclock{}, races: map[*Value]*raceCell{}, side: map[string]interface{}{},
		kill: make(chan struct{}), done: make(chan *Outcome, 1), fnSeen: map[*ssa.Function]bool{}}
	m := it.model
	if it.owner != nil && it.owner != w {
		m = map[*Term]uint64{}
		for t, v := range it.model {
			m[w.ctx.Var(t.name, t.w)] = v
		}
	}
	if m == nil {
		m = map[*Term]uint64{}
	}
	p.setModel(m)
	return p
}

// runPath executes the harness once along the item's prefix.
func (w *Worker) runPath(fn *ssa.Function, it *Item) (*Outcome, []*Item) {
	w.ctx.ResetPath()
	p := w.newPath(it)
	w.st.Paths++
	g := p.newG(nil)
	p.cur = g
	go func() {
		p.runG(g, func() {
			if initf := fn.Pkg.Func("init"); initf != nil {
				p.callFunction(nil, initf, nil, nil)
			}
			p.callFunction(nil, fn, nil, nil)
		}, true)
	}()
	out := <-p.done
	close(p.kill)
	for _, g := range p.gs {
		<-g.exited
	}
	w.st.Steps += int64(p.steps)
	out.Steps = p.steps
	// collect inputs
	for _, in := range p.inputs {
		out.Inputs = append(out.Inputs, Input{Name: in.Name, W: in.W, Val: p.eval(in.term)})
	}
	if out.Kind != "unsupported" {
		out.Trace = p.events
	}
	for _, f := range out.Stack {
		if !strings.HasPrefix(f, "$GOROOT") && !strings.HasPrefix(f, "zzverif/") && f != "?" {
			out.Where = f
			break
		}
	}
	out.Sched = p.schedN > 0
	out.Decisions = p.trace
	if out.Kind == "ok" || out.Kind == "violation" {
		out.ObsOK = true
		for _, o := range p.obs {
			s, ok := p.showObs(o.val)
			if !ok {
				out.ObsOK = false
			}
			out.Obs = append(out.Obs, o.tag+"="+s)
		}
	}
	switch out.Kind {
	case "ok":
		w.st.Done++
	case "assume":
		w.st.AssumeDead++
	case "violation":
		w.st.Violations++
	case "unsupported":
		w.st.Unsupported++
		w.st.Reasons[out.Msg]++
	case "budget":
		w.st.Budget++
		w.st.Reasons["budget: "+out.Msg]++
	case "cut":
		w.st.Cut++
		w.st.Reasons["cut: "+out.Msg]++
	}
	w.eng.funcHits.addAll(p.fnSeen)
	return out, p.newItems
}

// runG runs body as goroutine g (which holds the baton).
func (p *Path) runG(g *G, body func(), main bool) {
	defer close(g.exited)
	var out *Outcome
	finished := false
	func() {
		defer func() {
			if finished {
				return
			}
			r := recover()
			if r == nil {
				return // Goexit on kill
			}
			switch x := r.(type) {
			case pathAbort:
				out = x.out
			case *unsupportedErr:
				out = &Outcome{Kind: "unsupported", Msg: x.msg}
			case targetPanic:
				out = &Outcome{Kind: "violation", Msg: "panic: " + p.panicString(x.v)}
			case killed:
				return
			default:
				buf := make([]byte, 1<<14)
				n := runtime.Stack(buf, false)
				out = &Outcome{Kind: "unsupported", Msg: fmt.Sprintf("engine error: %v", r), Trace: []string{string(buf[:n])}}
				if debugOn {
					fmt.Println(string(buf[:n]))
				}
			}
		}()
		body()
		finished = true
	}()
	if out == nil && !finished {
		return // killed
	}
	if out != nil {
		if out.Stack == nil {
			out.Stack = p.panicAt
			if out.Stack == nil && g.fr != nil {
				out.Stack = g.fr.stack()
			}
		}
		p.finish(out)
		return
	}
	g.dead = true
	if main {
		p.finish(&Outcome{Kind: "ok"})
		return
	}
	// hand the baton to someone else
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathAbort:
					p.finish(x.out)
				case *unsupportedErr:
					p.finish(&Outcome{Kind: "unsupported", Msg: x.msg})
				case killed:
				default:
					p.finish(&Outcome{Kind: "unsupported", Msg: fmt.Sprintf("engine error: %v", r)})
				}
			}
		}()
		n := p.pickNext(false)
		p.cur = n
		n.resume <- struct{}{}
	}()
}

func (p *Path) finish(o *Outcome) {
	select {
	case p.done <- o:
	default:
	}
}

type killed struct{}

func (p *Path) showObs(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		for _, vv := range x.vars {
			if strings.HasPrefix(vv.name, "!") {
				return "?", false
			}
		}
		if x.w == 0 {
			return fmt.Sprint(p.eval(x) == 1), true
		}
		return fmt.Sprintf("%d", p.eval(x)), true
	case Str:
		bs := p.w.strBytes(x)
		out := make([]byte, len(bs))
		for i, b := range bs {
			for _, vv := range b.vars {
				if strings.HasPrefix(vv.name, "!") {
					return "?", false
				}
			}
			out[i] = byte(p.eval(b))
		}
		return fmt.Sprintf("%q", out), true
	}
	return fmt.Sprintf("%T", v), false
}

func sortedReasons(m map[string]int64) []string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%s (x%d)", k, v))
	}
	sort.Strings(out)
	return out
}
