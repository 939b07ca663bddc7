// Package sym is the interface between verification harnesses and the symbolic executor. The
// executor intercepts every function here by name; the bodies below are what runs when a
// counterexample (or a sampled path) is replayed natively against the real code.
package sym

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
	"unsafe"
)

type input struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	Val  uint64 `json:"val"`
}

type replayFile struct {
	Inputs []input        `json:"inputs"`
	Params map[string]int `json:"params"`
}

var (
	mu     sync.Mutex
	loaded bool
	queues map[string][]uint64
	params map[string]int
)

func load() {
	if loaded {
		return
	}
	loaded = true
	queues = map[string][]uint64{}
	params = map[string]int{}
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, "SYMERR", err)
		os.Exit(70)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, "SYMERR", err)
		os.Exit(70)
	}
	for _, in := range r.Inputs {
		queues[in.Name] = append(queues[in.Name], in.Val)
	}
	if r.Params != nil {
		params = r.Params
	}
}

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	load()
	q := queues[name]
	if len(q) == 0 {
		return 0
	}
	queues[name] = q[1:]
	return q[0]
}

// Fresh symbolic values.
func U8(name string) uint8   { return uint8(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }
func Bool(name string) bool  { return next(name)&1 == 1 }

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(next(name))
	Assume(lo <= v && v <= hi)
	return v
}

// Choose returns a concrete value in [0,n), every one of which is explored.
func Choose(name string, n int) int {
	v := int(next(name))
	Assume(v < n)
	return v
}

func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

func Str(name string, n int) string { return string(Bytes(name, n)) }

// Concrete enumerates the feasible values of x, one per path.
func Concrete(x int) int { return x }

func Assume(c bool) {
	if !c {
		fmt.Println("SYMASSUME")
		os.Exit(77)
	}
}

func Assert(c bool, msg string) {
	if !c {
		fail("assertion failed: " + msg)
	}
}

func Fail(msg string) { fail("assertion failed: " + msg) }

func fail(msg string) {
	flushObs()
	fmt.Println("SYMFAIL", msg)
	os.Exit(66)
}

// Exit stands for the process under test ending (os.Exit, log.Fatal).
func Exit(msg string) { fail("process exits: " + msg) }

// Stop ends the path successfully.
func Stop() { flushObs(); fmt.Println("SYMDONE"); os.Exit(0) }

// Reach marks a point that some path must reach for the check not to be vacuous.
func Reach(name string) {}

// Observe records a value that must come out equal when the path is replayed natively.
func Observe(tag string, v interface{}) {
	mu.Lock()
	defer mu.Unlock()
	switch x := v.(type) {
	case string:
		obs = append(obs, fmt.Sprintf("%s=%q", tag, []byte(x)))
	case []byte:
		obs = append(obs, fmt.Sprintf("%s=%q", tag, x))
	case bool:
		obs = append(obs, fmt.Sprintf("%s=%v", tag, x))
	case int:
		obs = append(obs, fmt.Sprintf("%s=%d", tag, uint64(x)))
	case int64:
		obs = append(obs, fmt.Sprintf("%s=%d", tag, uint64(x)))
	case int32:
		obs = append(obs, fmt.Sprintf("%s=%d", tag, uint64(x)))
	default:
		obs = append(obs, fmt.Sprintf("%s=%d", tag, x))
	}
}

var obs []string

func flushObs() {
	for _, o := range obs {
		fmt.Println("OBS", o)
	}
}

// Done is called by the generated main function.
func Done() { flushObs(); fmt.Println("SYMDONE") }

func Param(name string, def int) int {
	mu.Lock()
	defer mu.Unlock()
	load()
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

// Symbolic tells whether the harness runs in the symbolic executor.
func Symbolic() bool { return false }

// SHA1 is SHA-1, modelled as an injective function on symbolic data.
func SHA1(b []byte) [20]byte { return sha1.Sum(b) }

// Explore makes the scheduler explore interleavings with up to n preemptions (n<0: deterministic).
func Explore(n int) {}

// Race switches detection of unsynchronised memory accesses in the code under test.
func Race(on bool) {}

// Release and Acquire order what comes before Release before what comes after Acquire.
func Release(mark *int) {}
func Acquire(mark *int) {}

// Touch tells that the system reads or writes b on behalf of the caller.
func Touch(b []byte, write bool) {}

// MapOrder makes map iteration order in the code under test a free choice.
func MapOrder(on bool) {}

// ExactFmt makes formatting of symbolic integers exact (by enumeration).
func ExactFmt(on bool) {}

// Goroutines is the number of live goroutines of the program under test.
func Goroutines() int {
	n := runtime.NumGoroutine()
	if monitoring {
		n--
	}
	return n
}

var monitoring bool

// SetTag marks the running goroutine, and those it starts from now on, with a number.
func SetTag(n int) { setLabel(unsafe.Pointer(&tags[n])) }

// Tag is the number of the running goroutine; 0 if none was set.
func Tag() int {
	p := (*int)(getLabel())
	if p == nil {
		return 0
	}
	return *p
}

var tags = func() (t [256]int) {
	for i := range t {
		t[i] = i
	}
	return
}()

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

// ---- quiescence

type idler struct {
	prio int
	ch   chan struct{}
}

var (
	idlers  []*idler
	idleMu  sync.Mutex
	monOnce sync.Once
)

// WaitIdle blocks until every other goroutine is blocked (or waits with a higher number).
func WaitIdle(prio int) {
	monOnce.Do(func() { monitoring = true; go monitor() })
	w := &idler{prio, make(chan struct{})}
	idleMu.Lock()
	idlers = append(idlers, w)
	idleMu.Unlock()
	<-w.ch
}

func allBlocked() bool {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	gs := strings.Split(string(buf[:n]), "\n\n")
	for i, g := range gs {
		if i == 0 {
			continue // the monitor itself
		}
		a, b := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
		if a < 0 || b < a {
			continue
		}
		st := g[a+1 : b]
		if k := strings.IndexByte(st, ','); k >= 0 {
			st = st[:k]
		}
		switch st {
		case "chan receive", "chan send", "select", "select (no cases)", "semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock",
			"sync.RWMutex.RLock", "sync.Cond.Wait", "sync.WaitGroup.Wait", "chan receive (nil chan)", "chan send (nil chan)", "IO wait":
		default:
			return false
		}
	}
	return true
}

func monitor() {
	for {
		time.Sleep(200 * time.Microsecond)
		ok := true
		for i := 0; i < 2 && ok; i++ {
			ok = allBlocked()
			runtime.Gosched()
		}
		if !ok {
			continue
		}
		idleMu.Lock()
		if len(idlers) == 0 {
			idleMu.Unlock()
			fail("all goroutines are blocked (deadlock)")
		}
		best := 0
		for i := range idlers {
			if idlers[i].prio < idlers[best].prio {
				best = i
			}
		}
		w := idlers[best]
		idlers = append(idlers[:best:best], idlers[best+1:]...)
		idleMu.Unlock()
		close(w.ch)
	}
}
