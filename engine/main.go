package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---- check table

type HarnessCfg struct {
	Fn       string         `json:"fn"`
	Pkg      string         `json:"pkg"`
	Params   map[string]int `json:"params"`
	Thorough map[string]int `json:"thorough"`
	Timeout  int            `json:"timeout"`  // seconds, quick
	TTimeout int            `json:"ttimeout"` // seconds, thorough
	MaxSteps int            `json:"maxsteps"`
	SymIdx   int            `json:"symidx"`
	AllocCut uint64         `json:"alloccut"`
	Reach    []string       `json:"reach"`
	Bounds   string         `json:"bounds"`
	NoNative bool           `json:"nonative"` // schedules differ natively
	Tier     string         `json:"tier"`     // "thorough": only there
}

type PropCfg struct {
	Pkg       string       `json:"pkg"`
	Harnesses []HarnessCfg `json:"harnesses"`
	Outside   []string     `json:"outside"`
	Assume    []string     `json:"assume"`
}

func loadTable() (map[string]*PropCfg, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		return nil, err
	}
	var t map[string]*PropCfg
	if err := json.Unmarshal(b, &t); err != nil {
		return nil, fmt.Errorf("checks.json: %v", err)
	}
	return t, nil
}

// ---- known findings

type knownFinding struct {
	prop, harness, msg, where, desc string
}

// Lines of the form
//
//	known: property=<id> harness=<fn> where=<function> msg=<substring> :: description
func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, desc := l[7:], ""
		if i := strings.Index(head, " :: "); i >= 0 {
			head, desc = head[:i], head[i+4:]
		}
		k := knownFinding{desc: desc}
		msg := ""
		if i := strings.Index(head, "msg="); i >= 0 {
			msg = strings.TrimSpace(head[i+4:])
			head = head[:i]
		}
		k.msg = msg
		for _, f := range strings.Fields(head) {
			switch {
			case strings.HasPrefix(f, "property="):
				k.prop = f[9:]
			case strings.HasPrefix(f, "harness="):
				k.harness = f[8:]
			case strings.HasPrefix(f, "where="):
				k.where = f[6:]
			}
		}
		out = append(out, k)
	}
	return out
}

func (k *knownFinding) match(prop, harness string, o *Outcome) bool {
	return k.prop == prop && (k.harness == "" || k.harness == harness) && (k.msg == "" || strings.Contains(o.Msg, k.msg)) &&
		(k.where == "" || strings.Contains(o.Where, k.where))
}

// ---- main

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check -prop ID [-tier quick|thorough] | replay FILE | run PKG FN")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		prop := fs.String("prop", "", "property")
		tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "tier")
		only := fs.String("only", "", "only this harness")
		fs.Parse(os.Args[2:])
		os.Exit(checkProp(*prop, *tier, *only))
	case "run":
		fs := flag.NewFlagSet("run", flag.ExitOnError)
		to := fs.Int("t", 60, "timeout")
		par := fs.String("p", "", "params a=1,b=2")
		ms := fs.Int("steps", 0, "max steps")
		nn := fs.Bool("nonative", false, "")
		fs.Parse(os.Args[2:])
		h := HarnessCfg{Fn: fs.Arg(1), Timeout: *to, Params: map[string]int{}, MaxSteps: *ms, NoNative: *nn}
		for _, kv := range strings.Split(*par, ",") {
			if i := strings.IndexByte(kv, '='); i > 0 {
				h.Params[kv[:i]], _ = strconv.Atoi(kv[i+1:])
			}
		}
		os.Exit(runProp("ADHOC", "quick", &PropCfg{Pkg: fs.Arg(0), Harnesses: []HarnessCfg{h}}, ""))
	case "replay":
		os.Exit(replayCmd(os.Args[2]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func checkProp(prop, tier, only string) int {
	t, err := loadTable()
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	cfg := t[prop]
	if cfg == nil {
		fmt.Println("ERROR unknown property", prop)
		return 2
	}
	return runProp(prop, tier, cfg, only)
}

type harnessReport struct {
	Harness     string           `json:"harness"`
	Bounds      string           `json:"bounds"`
	Params      map[string]int   `json:"params"`
	Exhaustive  bool             `json:"exhaustive_within_bounds"`
	Paths       int64            `json:"paths"`
	PathsDone   int64            `json:"paths_completed"`
	AssumeDead  int64            `json:"paths_outside_assumptions"`
	Unsupported int64            `json:"paths_not_encodable"`
	Cut         int64            `json:"paths_cut"`
	Instr       int64            `json:"ssa_instructions_executed"`
	Branches    int64            `json:"symbolic_branches"`
	Asserts     int64            `json:"assertions"`
	AssertQ     int64            `json:"assertions_decided_by_solver"`
	Queries     int64            `json:"solver_queries"`
	Unsat       int64            `json:"solver_unsat"`
	Sat         int64            `json:"solver_sat"`
	Unknown     int64            `json:"solver_unknown"`
	SolverS     float64          `json:"solver_time_s"`
	MaxQueryS   float64          `json:"slowest_query_s"`
	WallS       float64          `json:"wall_s"`
	Validated   int              `json:"paths_replayed_natively"`
	Mismatch    int              `json:"native_mismatches"`
	Reach       map[string]int64 `json:"reach_witnesses"`
	Notes       []string         `json:"notes,omitempty"`
	PathsLeft   int              `json:"paths_not_explored,omitempty"`
}

func runProp(prop, tier string, cfg *PropCfg, only string) int {
	start := time.Now()
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	ov, err := buildOverlay()
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	known := loadKnown()
	type group struct {
		pkg string
		hs  []HarnessCfg
	}
	var groups []*group
	for _, h := range cfg.Harnesses {
		if only != "" && h.Fn != only {
			continue
		}
		if h.Tier == "thorough" && tier != "thorough" {
			continue
		}
		pkg := h.Pkg
		if pkg == "" {
			pkg = cfg.Pkg
		}
		var g *group
		for _, x := range groups {
			if x.pkg == pkg {
				g = x
			}
		}
		if g == nil {
			g = &group{pkg: pkg}
			groups = append(groups, g)
		}
		g.hs = append(g.hs, h)
	}
	var reports []*harnessReport
	funcs := map[string]int{}
	var violations, knownHits, unconfirmed []string
	var samples []interface{}
	code := 0
	for _, g := range groups {
		nat := newNative(g.pkg, ov, g.hs)
		eng, hp, err := load(g.pkg, ov)
		if err != nil {
			fmt.Println("ERROR", err)
			nat.close()
			return 2
		}
		for _, h := range g.hs {
			fn := hp.Func(h.Fn)
			if fn == nil {
				fmt.Println("ERROR no harness", h.Fn)
				nat.close()
				return 2
			}
			eng.params = map[string]int{}
			for k, v := range h.Params {
				eng.params[k] = v
			}
			to := h.Timeout
			if tier == "thorough" {
				for k, v := range h.Thorough {
					eng.params[k] = v
				}
				to = h.TTimeout
				if to == 0 {
					to = 600
				}
			}
			if to == 0 {
				to = 120
			}
			eng.tier = tier
			eng.maxSteps = 5_000_000
			if h.MaxSteps > 0 {
				eng.maxSteps = h.MaxSteps
			}
			eng.symIdx, eng.allocCut = 80, 1<<16
			if h.SymIdx > 0 {
				eng.symIdx = h.SymIdx
			}
			if h.AllocCut > 0 {
				eng.allocCut = h.AllocCut
			}
			res, err := explore(eng, fn, runtime.NumCPU(), time.Now().Add(time.Duration(to)*time.Second), 25, solverArgv(), 20000)
			if err != nil {
				fmt.Println("ERROR", err)
				nat.close()
				return 2
			}
			st := &res.Stats
			rep := &harnessReport{Harness: h.Fn, Bounds: h.Bounds, Params: copyParams(eng.params), Paths: st.Paths, PathsDone: st.Done, AssumeDead: st.AssumeDead,
				Unsupported: st.Unsupported, Cut: st.Cut, Instr: st.Steps, Branches: st.Branches, Asserts: st.Asserts, AssertQ: st.AssertQueries,
				Queries: res.Queries, Unsat: res.Unsat, Sat: res.Sat, Unknown: res.Unknown, SolverS: res.SolverTime.Seconds(), MaxQueryS: res.MaxQuery.Seconds(),
				WallS: res.Wall.Seconds(), Reach: st.Reach, PathsLeft: res.Left}
			rep.Exhaustive = res.Complete && st.Unsupported == 0 && st.Cut == 0 && res.Unknown == 0 && st.UnknownBranches == 0 && st.UnknownAsserts == 0
			rep.Notes = sortedReasons(st.Reasons)
			if res.Left > 0 {
				rep.Notes = append(rep.Notes, fmt.Sprintf("exploration stopped with %d paths not explored", res.Left))
			}
			if st.UnknownAsserts > 0 {
				rep.Notes = append(rep.Notes, fmt.Sprintf("%d assertions undecided by the solver", st.UnknownAsserts))
			}
			// findings
			for _, f := range res.sortedFindings() {
				isKnown := false
				for _, k := range known {
					if k.match(prop, h.Fn, f.Outcome) {
						knownHits = append(knownHits, fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, k.desc))
						isKnown = true
						break
					}
				}
				if isKnown {
					continue
				}
				ok, how, path := confirm(nat, prop, g.pkg, h, eng.params, f)
				if ok {
					fmt.Printf("  %s: %s (x%d)\n    %s\n", h.Fn, f.Sig, f.Count, how)
					if debugOn || os.Getenv("SYMTRACE") != "" {
						fmt.Println("    stack:", strings.Join(f.Outcome.Stack, " <- "))
						for _, e := range f.Outcome.Trace {
							fmt.Println("      ", e)
						}
					}
					violations = append(violations, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
				} else {
					fmt.Printf("  UNCONFIRMED %s: %s: %s\n    stack: %s\n", h.Fn, f.Sig, how, strings.Join(f.Outcome.Stack, " <- "))
					if debugOn {
						fmt.Println("    ", path, f.Outcome.Inputs)
					}
					unconfirmed = append(unconfirmed, h.Fn+": "+f.Sig+": "+how)
					rep.Notes = append(rep.Notes, "counterexample not reproduced natively: "+f.Sig+": "+how)
					rep.Exhaustive = false
				}
			}
			// validation of the encoding
			if !h.NoNative {
				max := 4
				if tier == "thorough" {
					max = 12
				}
				for i, s := range res.Samples {
					if i >= max {
						break
					}
					ok, why := nat.validate(h, eng.params, s)
					rep.Validated++
					if !ok {
						rep.Mismatch++
						rep.Notes = append(rep.Notes, "native run differs from the symbolic path: "+why)
						if debugOn {
							fmt.Println("MISMATCH", why, s.Inputs)
						}
					}
				}
			}
			if len(res.Samples) > 0 && len(samples) < 10 {
				s := res.Samples[0]
				in := s.Inputs
				if len(in) > 40 {
					in = in[:40]
				}
				ob := s.Obs
				if len(ob) > 12 {
					ob = ob[:12]
				}
				samples = append(samples, map[string]interface{}{"harness": h.Fn, "inputs_of_one_path": in, "observed": ob})
			}
			if res.Complete && len(res.Findings) == 0 && st.Unsupported == 0 {
				if st.Done == 0 {
					fmt.Printf("  VACUOUS %s: no path completes\n", h.Fn)
					code = 2
				}
				for _, r := range h.Reach {
					if st.Reach[r] == 0 {
						fmt.Printf("  VACUOUS %s: witness %q never reached\n", h.Fn, r)
						code = 2
					}
				}
			}
			for _, hf := range eng.funcHits.names() {
				funcs[hf]++
			}
			reports = append(reports, rep)
			fmt.Printf("  %s: paths=%d done=%d outside=%d unsupported=%d cut=%d queries=%d (unsat %d, unknown %d) solver=%.1fs wall=%.1fs exhaustive=%v native=%d/%d\n", h.Fn,
				st.Paths, st.Done, st.AssumeDead, st.Unsupported, st.Cut, res.Queries, res.Unsat, res.Unknown, res.SolverTime.Seconds(), res.Wall.Seconds(), rep.Exhaustive, rep.Validated-rep.Mismatch, rep.Validated)
			for i, n := range rep.Notes {
				if i > 12 && !debugOn {
					break
				}
				fmt.Println("    note:", n)
			}
		}
		nat.close()
	}
	writeEvidence(prop, tier, seed, cfg, reports, funcs, samples, len(violations), knownHits, unconfirmed, time.Since(start).Seconds())
	seen := map[string]bool{}
	for _, k := range knownHits {
		if !seen[k] {
			fmt.Println(k)
			seen[k] = true
		}
	}
	if len(violations) > 0 {
		for _, v := range violations {
			fmt.Println(v)
		}
		return 1
	}
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", prop, tier, time.Since(start).Seconds())
	}
	return code
}

func copyParams(m map[string]int) map[string]int {
	o := map[string]int{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func solverArgv() []string {
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		return strings.Fields(s)
	}
	return []string{"z3-new", "-in", "-smt2"}
}

func writeEvidence(prop, tier string, seed int, cfg *PropCfg, reps []*harnessReport, funcs map[string]int, samples []interface{}, nviol int, known, unconf []string, wall float64) {
	var states, trans, q, uns, val int64
	var solver float64
	exh := len(reps) > 0
	for _, r := range reps {
		states += r.PathsDone
		trans += r.Instr
		q += r.Queries
		uns += r.Unsat
		solver += r.SolverS
		val += int64(r.Validated - r.Mismatch)
		exh = exh && r.Exhaustive
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": nviol,
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
			"exhaustive":                  exh,
			"what_states_are":             "symbolic paths executed to their end (each stands for every input satisfying its path condition)",
			"what_transitions_are":        "SSA instructions of the code under test, its modelled environment and the harness executed symbolically",
			"functions_encoded":           fl,
			"solver":                      strings.Join(solverArgv(), " "),
			"solver_queries":              q,
			"solver_unsat":                uns,
			"solver_time_s":               solver,
			"harnesses":                   reps,
			"outside_the_bounds":          cfg.Outside,
			"known_findings_seen":         known,
			"unconfirmed_counterexamples": unconf,
		},
		"assumptions": append([]string{
			"the Go SSA form built by golang.org/x/tools is a faithful translation of the source; z3 is sound",
			"operating system, network, clock, JSON and SHA-1 are the models described in DESIGN.md (SHA-1: equal digests only for equal contents)",
		}, cfg.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0644)
}
