package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// native builds the harness package together with the real code with the ordinary compiler, so
// that counterexamples and sampled paths can be replayed outside the symbolic executor.
type native struct {
	pkg  string
	dir  string
	bin  string
	err  error
	once sync.Once
	wait chan struct{}
}

func newNative(pkg string, ov map[string][]byte, hs []HarnessCfg) *native {
	n := &native{pkg: pkg, wait: make(chan struct{})}
	dir, err := os.MkdirTemp("", "verif-native")
	if err != nil {
		n.err = err
		close(n.wait)
		return n
	}
	n.dir = dir
	go func() {
		defer close(n.wait)
		o2 := map[string][]byte{}
		for k, v := range ov {
			o2[k] = v
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "package main\n\nimport (\n\t\"os\"\n\th %q\n\t\"%s/zzverif/sym\"\n)\n\nfunc main() {\n\tswitch os.Args[1] {\n", modulePath+"/zzverif/h/"+pkg, modulePath)
		done := map[string]bool{}
		for _, h := range hs {
			if !done[h.Fn] {
				fmt.Fprintf(&b, "\tcase %q:\n\t\th.%s()\n", h.Fn, h.Fn)
			}
			done[h.Fn] = true
		}
		b.WriteString("\tdefault:\n\t\tpanic(\"no such harness\")\n\t}\n\tsym.Done()\n}\n")
		o2[filepath.Join(repoDir, "zzverif", "cmd", "main.go")] = b.Bytes()
		js, err := writeOverlayDir(dir, o2)
		if err != nil {
			n.err = err
			return
		}
		n.bin = filepath.Join(dir, "native")
		cmd := exec.Command("go", "build", "-ldflags=-checklinkname=0", "-overlay", js, "-o", n.bin, "./zzverif/cmd")
		cmd.Dir = repoDir
		cmd.Env = append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
			if debugOn {
				fmt.Println(n.err)
			}
		}
	}()
	return n
}

func (n *native) close() {
	<-n.wait
	if n.dir != "" && strings.Contains(n.dir, "verif-native") {
		os.RemoveAll(n.dir)
	}
}

type replayFile struct {
	Property  string         `json:"property"`
	Pkg       string         `json:"pkg"`
	Harness   string         `json:"harness"`
	Kind      string         `json:"kind"`
	Message   string         `json:"message"`
	Params    map[string]int `json:"params"`
	Inputs    []Input        `json:"inputs"`
	Schedule  bool           `json:"depends_on_schedule"`
	Stack     []string       `json:"stack"`
	Trace     []string       `json:"trace,omitempty"`
	Native    string         `json:"native_replay"`
	HowTo     string         `json:"how_to_replay"`
	Decisions [][2]uint64    `json:"decisions,omitempty"`
	MaxSteps  int            `json:"maxsteps,omitempty"`
}

// run executes the native binary on the inputs; the verdict is "ok", "fail: ...", "assume", "hang" or "error".
func (n *native) run(fn string, params map[string]int, inputs []Input, timeout time.Duration) (string, []string) {
	<-n.wait
	if n.err != nil {
		return "error " + n.err.Error(), nil
	}
	f, err := os.CreateTemp(n.dir, "in*.json")
	if err != nil {
		return "error " + err.Error(), nil
	}
	b, _ := json.Marshal(replayFile{Params: params, Inputs: inputs})
	f.Write(b)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin, fn)
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f.Name(), "GOMAXPROCS=1", "GOMEMLIMIT=4GiB", "GOTRACEBACK=single")
	var out, errb limitBuf
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err = cmd.Run()
	if ctx.Err() != nil {
		return "hang", nil
	}
	var obs []string
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "OBS ") {
			obs = append(obs, l[4:])
		}
		if strings.HasPrefix(l, "SYMFAIL ") {
			return "fail: " + l[8:], obs
		}
		if l == "SYMASSUME" {
			return "assume", obs
		}
	}
	if err != nil {
		msg := errb.String()
		if i := strings.IndexByte(msg, '\n'); i >= 0 {
			msg = msg[:i]
		}
		return "fail: " + err.Error() + ": " + msg, obs
	}
	if !strings.Contains(out.String(), "SYMDONE") {
		return "fail: the process ended early", obs
	}
	return "ok", obs
}

type limitBuf struct{ bytes.Buffer }

func (l *limitBuf) Write(b []byte) (int, error) {
	if l.Len() < 1<<22 {
		l.Buffer.Write(b)
	}
	return len(b), nil
}

func (n *native) validate(h HarnessCfg, params map[string]int, o *Outcome) (bool, string) {
	v, obs := n.run(h.Fn, params, o.Inputs, 20*time.Second)
	if v != "ok" {
		return false, "native verdict " + v
	}
	if len(obs) != len(o.Obs) {
		return false, fmt.Sprintf("%d observations natively, %d symbolically", len(obs), len(o.Obs))
	}
	for i := range obs {
		if obs[i] != o.Obs[i] {
			return false, fmt.Sprintf("native %s, symbolic %s", obs[i], o.Obs[i])
		}
	}
	return true, ""
}

// confirm replays a finding natively.
func confirm(n *native, prop, pkg string, h HarnessCfg, params map[string]int, f *Finding) (bool, string, string) {
	outs := append([]*Outcome{f.Outcome}, f.More...)
	var last, path string
	for i, o := range outs {
		if i >= 5 {
			break
		}
		v, _ := n.run(h.Fn, params, o.Inputs, 20*time.Second)
		ok := strings.HasPrefix(v, "fail: ") || (v == "hang" && o.Kind == "budget")
		if v == "hang" && strings.Contains(o.Msg, "deadlock") {
			ok = true
		}
		note := ""
		if !ok && (o.Sched || (len(o.Trace) > 0 && h.NoNative) || strings.Contains(o.Msg, "unsynchronised")) {
			// the failing schedule cannot be forced on the native scheduler; the executor's own
			// deterministic re-execution of the recorded decisions is the replay
			ok = true
			note = " (schedule-dependent; replayed by the symbolic executor along its recorded schedule)"
		}
		rf := replayFile{Property: prop, Pkg: pkg, Harness: h.Fn, Kind: o.Kind, Message: o.Msg, Params: params, Inputs: o.Inputs,
			Schedule: o.Sched, Stack: o.Stack, Trace: o.Trace, Native: v + note, MaxSteps: h.MaxSteps}
		for _, d := range o.Decisions {
			x := [2]uint64{0, d.val}
			if d.taken {
				x[0] = 1
			}
			rf.Decisions = append(rf.Decisions, x)
		}
		path = filepath.Join(verifDir, "evidence", "replay", fmt.Sprintf("%s-%s-%x.json", prop, h.Fn, hashString(f.Sig)))
		rf.HowTo = "/verif/check replay " + path
		os.MkdirAll(filepath.Dir(path), 0755)
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		last = "native replay: " + v + note
		if ok {
			return true, last, path
		}
	}
	return false, last, path
}

func hashString(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	ov, err := buildOverlay()
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	nat := newNative(rf.Pkg, ov, []HarnessCfg{{Fn: rf.Harness}})
	defer nat.close()
	v, _ := nat.run(rf.Harness, rf.Params, rf.Inputs, 30*time.Second)
	fmt.Println("expected:", rf.Kind, rf.Message)
	fmt.Println("native:  ", v)
	if strings.HasPrefix(v, "fail: ") || v == "hang" {
		return 1
	}
	// re-execute the recorded decisions symbolically
	eng, hp, err := load(rf.Pkg, ov)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	eng.params = rf.Params
	eng.maxSteps = 5_000_000
	if rf.MaxSteps > 0 {
		eng.maxSteps = rf.MaxSteps
	}
	runDeadline = time.Now().Add(5 * time.Minute)
	s, err := NewSolver(solverArgv(), 20000)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer s.Close()
	w := newWorker(0, eng, s)
	var pre []Decision
	for _, d := range rf.Decisions {
		pre = append(pre, Decision{taken: d[0] == 1, val: d[1]})
	}
	m := map[*Term]uint64{}
	cnt := map[string]int{}
	for _, in := range rf.Inputs {
		m[w.ctx.Var(fmt.Sprintf("%s#%d", in.Name, cnt[in.Name]), in.W)] = in.Val
		cnt[in.Name]++
	}
	out, _ := w.runPath(hp.Func(rf.Harness), &Item{prefix: pre, model: m, owner: w})
	fmt.Println("symbolic:", out.Kind, out.Msg)
	for _, e := range out.Trace {
		fmt.Println("   ", e)
	}
	if out.Kind == "violation" || out.Kind == "budget" {
		return 1
	}
	return 0
}

func (h *hitSet) names() []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	var out []string
	for f := range h.m {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modulePath) || strings.Contains(f.Pkg.Pkg.Path(), "/zzverif/") {
			continue
		}
		if f.Synthetic != "" {
			continue
		}
		out = append(out, strings.TrimPrefix(f.String(), ""))
	}
	sort.Strings(out)
	return out
}
