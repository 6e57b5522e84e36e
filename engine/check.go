package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Check struct {
	sp      *Spec
	verif   string
	repo    string
	tier    string
	seed    int
	only    string
	workers int
	verbose bool
	native  bool
	budget  float64
	scale   float64
	start   time.Time
	tmp     string
	bin     string
	binErr  error
	binDone chan struct{}
	loadDur time.Duration
	p       *Prog
}

// known is one line "known: property=<id> harness=<func> match=/<regexp>/ <what fails>" of known-findings.txt; the
// regular expression is matched against "<kind>: <message>" as the native replay reports it.
type known struct{ Property, Harness, Match, What string }

var knownRE = regexp.MustCompile(`^known: property=(\S+) harness=(\S*) match=/(.*)/ (.+)$`)

type harnessReport struct {
	h          *HarnessSpec
	res        *Result
	wall       time.Duration
	confirmed  []*Violation
	knownHit   []string
	unconf     []*Violation
	validated  int
	mismatched []string
	natErr     []string
	missing    []string
	params     map[string]int
}

func (c *Check) say(f string, a ...any) { fmt.Printf(f+"\n", a...) }

func (c *Check) run() int {
	var err error
	c.tmp, err = os.MkdirTemp("", "gosym-"+c.sp.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(c.tmp)
	c.binDone = make(chan struct{})
	if c.native {
		go c.buildNative()
	} else {
		close(c.binDone)
	}
	p, pkg, err := loadProg(c.verif, c.repo, c.sp)
	if err != nil {
		fmt.Fprintf(os.Stderr, "%s: %v\n", c.sp.ID, err)
		<-c.binDone
		return 2
	}
	c.p = p
	c.loadDur = time.Since(c.start)
	logf("%s: loaded %s from source in %.1fs\n", c.sp.ID, c.repo, c.loadDur.Seconds())
	var reps []*harnessReport
	for i := range c.sp.Harnesses {
		h := &c.sp.Harnesses[i]
		if c.only != "" && h.Func != c.only {
			continue
		}
		ts := h.Quick
		if c.tier == "thorough" {
			ts = h.Thorough
			if ts.Params == nil && ts.BudgetS == 0 && !ts.Skip {
				ts = h.Quick
				ts.BudgetS *= 4
			}
		}
		if ts.Skip {
			continue
		}
		f := pkg.Func(h.Func)
		if f == nil {
			fmt.Fprintf(os.Stderr, "%s: harness %s not found\n", c.sp.ID, h.Func)
			return 2
		}
		reps = append(reps, c.runHarness(f, h, ts))
	}
	<-c.binDone
	if c.native && c.binErr != nil {
		fmt.Fprintf(os.Stderr, "%s: native replayer: %v\n", c.sp.ID, c.binErr)
		return 2
	}
	kf := c.loadKnown()
	viol := 0
	for _, r := range reps {
		c.replay(r, kf)
	}
	seenKF := map[string]bool{}
	for _, r := range reps {
		for _, k := range r.knownHit {
			if !seenKF[k] {
				seenKF[k] = true
				c.say("KNOWN-FINDING: property=%s %s", c.sp.ID, k)
			}
		}
	}
	for _, r := range reps {
		for _, v := range r.confirmed {
			viol++
			path := c.writeReplay(v, viol)
			c.say("  %s/%s: %s: %s", c.sp.ID, v.Harness, v.Kind, firstLine(v.Msg))
			c.say("    inputs: %s", showInputs(v.Inputs))
			c.say("VIOLATION property=%s replay=%s", c.sp.ID, path)
		}
	}
	c.evidence(reps, viol)
	c.summary(reps, viol)
	if viol > 0 {
		return 1
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func showInputs(in []InputVal) string {
	var sb strings.Builder
	for i, v := range in {
		if i > 0 {
			sb.WriteString(" ")
		}
		if v.Kind == "string" {
			b := make([]byte, len(v.S)/2)
			for j := range b {
				fmt.Sscanf(v.S[2*j:2*j+2], "%02x", &b[j])
			}
			fmt.Fprintf(&sb, "%s=%q", v.Name, b)
		} else {
			fmt.Fprintf(&sb, "%s=%s", v.Name, v.S)
		}
		if sb.Len() > 1500 {
			sb.WriteString(" …")
			break
		}
	}
	return sb.String()
}

func (c *Check) runHarness(f *ssa.Function, h *HarnessSpec, ts TierSpec) *harnessReport {
	b := ts.BudgetS
	if b == 0 {
		b = 30
	}
	if c.budget > 0 {
		b = c.budget
	}
	b *= c.scale
	res := newResult()
	ex := &Explorer{p: c.p, entry: c.p.fn(f), name: h.Func, params: ts.Params, res: res, nworkers: c.workers, maxSamples: 64, solverPath: solverBin(), solverTimeout: 10000, maxViol: 60, progress: c.verbose}
	if h.Solver > 0 {
		ex.solverTimeout = h.Solver
	}
	if h.MaxSteps > 0 {
		ex.maxSteps = h.MaxSteps
	}
	if c.tier == "thorough" {
		ex.maxSamples = 400
	}
	t := time.Now()
	ex.deadline = t.Add(time.Duration(b * float64(time.Second)))
	ex.run()
	r := &harnessReport{h: h, res: res, wall: time.Since(t), params: ts.Params}
	for _, l := range h.Cover {
		if res.cover[l] == 0 {
			r.missing = append(r.missing, l)
		}
	}
	return r
}

func solverBin() string {
	for _, s := range []string{os.Getenv("GOSYM_SOLVER"), "/usr/bin/z3", "z3"} {
		if s == "" {
			continue
		}
		if p, err := exec.LookPath(s); err == nil {
			return p
		}
	}
	return "z3"
}

// ---- native replay ----

func (c *Check) buildNative() {
	defer close(c.binDone)
	ov := overlayFor(c.verif, c.repo, c.sp, true)
	var sb strings.Builder
	hp := repoModule + "/zz_verif/" + c.sp.Pkg
	fmt.Fprintf(&sb, "package main\n\nimport (\n\th %q\n\tzz %q\n)\n\nfunc main() {\n\tzz.Main(map[string]func(){\n", hp, repoModule+"/zz_vsym")
	seen := map[string]bool{}
	for _, h := range c.sp.Harnesses {
		if !seen[h.Func] {
			seen[h.Func] = true
			fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h.Func, h.Func)
		}
	}
	sb.WriteString("\t})\n}\n")
	mf := filepath.Join(c.tmp, "main.go")
	if c.binErr = os.WriteFile(mf, []byte(sb.String()), 0o644); c.binErr != nil {
		return
	}
	ov[filepath.Join(c.repo, "zz_verif", c.sp.Pkg+"_main", "main.go")] = mf
	j, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(c.tmp, "overlay.json")
	if c.binErr = os.WriteFile(of, j, 0o644); c.binErr != nil {
		return
	}
	bin := filepath.Join(c.tmp, "replayer")
	race := false
	for _, h := range c.sp.Harnesses {
		race = race || h.Race
	}
	args := []string{"build", "-overlay", of, "-o", bin}
	env := goEnv()
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "./zz_verif/"+c.sp.Pkg+"_main")
	cmd := exec.Command(filepath.Join(goroot, "bin/go"), args...)
	cmd.Dir = c.repo
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		c.binErr = fmt.Errorf("%v: %s", err, out)
		return
	}
	c.bin = bin
}

type natOut struct {
	I      int      `json:"i"`
	Status string   `json:"status"` // ok, assert, panic, assume, exhausted, mismatch; set by the parent: crash, hang, deadlock
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func (c *Check) nativeBatch(h string, vecs [][]byte, timeout time.Duration) ([]natOut, string, bool) {
	in := bytes.Join(vecs, []byte("\n"))
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.bin, h)
	cmd.Stdin = bytes.NewReader(append(in, '\n'))
	dir, _ := os.MkdirTemp(c.tmp, "run")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "HOME="+dir)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &limitW{b: &errb, n: 200000}
	cmd.WaitDelay = 2 * time.Second
	cmd.Run()
	hung := ctx.Err() != nil
	var r []natOut
	s := bufio.NewScanner(&out)
	s.Buffer(make([]byte, 1<<20), 1<<26)
	for s.Scan() {
		l := s.Bytes()
		if i := bytes.Index(l, []byte("\x01GOSYM:")); i >= 0 {
			var o natOut
			if json.Unmarshal(l[i+7:], &o) == nil {
				r = append(r, o)
			}
		}
	}
	return r, errb.String(), hung
}

type limitW struct {
	b *bytes.Buffer
	n int
}

func (l *limitW) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func (c *Check) nativeOne(h string, vec []byte, timeout time.Duration) natOut {
	r, errs, hung := c.nativeBatch(h, [][]byte{vec}, timeout)
	if len(r) == 1 {
		if strings.Contains(errs, "WARNING: DATA RACE") {
			return natOut{Status: "race", Msg: "data race: " + errs}
		}
		return r[0]
	}
	if hung {
		return natOut{Status: "hang", Msg: fmt.Sprintf("no answer within %v", timeout)}
	}
	st := "crash"
	if strings.Contains(errs, "all goroutines are asleep") {
		st = "deadlock"
	} else if strings.Contains(errs, "stack overflow") || strings.Contains(errs, "stack exceeds") {
		st = "stackoverflow"
	}
	if len(errs) > 4000 {
		errs = errs[:4000]
	}
	return natOut{Status: st, Msg: errs}
}

func bad(o natOut) bool {
	switch o.Status {
	case "assert", "panic", "crash", "hang", "deadlock", "stackoverflow", "race":
		return true
	}
	return false
}

func vecJSON(in []InputVal, params map[string]int) []byte {
	if in == nil {
		in = []InputVal{}
	}
	b, _ := json.Marshal(map[string]any{"inputs": in, "params": params})
	return b
}

func (c *Check) replay(r *harnessReport, kf []known) {
	if !c.native {
		for _, k := range sortedKeys(r.res.viol) {
			r.unconf = append(r.unconf, r.res.viol[k]...)
		}
		return
	}
	reported := map[string]bool{}
	accept := func(v *Violation, o natOut) {
		v.Native = "confirmed"
		v.NativeOut = o.Status + ": " + o.Msg
		key := o.Status + ": " + firstLine(o.Msg)
		for _, k := range kf {
			if k.Property != c.sp.ID || k.Harness != "" && k.Harness != r.h.Func {
				continue
			}
			if ok, _ := regexp.MatchString(k.Match, key); ok {
				r.knownHit = append(r.knownHit, k.What)
				return
			}
		}
		if reported[key] {
			return
		}
		reported[key] = true
		v.Kind = o.Status
		v.Msg = o.Msg
		r.confirmed = append(r.confirmed, v)
	}
	for _, k := range sortedKeys(r.res.viol) {
		vs := r.res.viol[k]
		ok := false
		for _, v := range vs {
			tries := 1
			to := 20 * time.Second
			if r.h.Native == "repeat" || v.Sched {
				tries = 400
				to = 10 * time.Second
			}
			vec := vecJSON(v.Inputs, r.params)
			var o natOut
			t0 := time.Now()
			if tries > 1 {
				// one process repeats the vector; a crash or a hang ends it
				batch := make([][]byte, tries)
				for i := range batch {
					batch[i] = vec
				}
				rs, errs, hung := c.nativeBatch(r.h.Func, batch, 3*to)
				for _, x := range rs {
					if bad(x) {
						o = x
						break
					}
				}
				if o.Status == "" {
					switch {
					case strings.Contains(errs, "WARNING: DATA RACE"):
						o = natOut{Status: "race", Msg: "data race: " + errs}
					case len(rs) == tries:
						o = rs[0]
					case hung:
						// slow or hung: decide by running once more
						o = c.nativeOne(r.h.Func, vec, to)
					default:
						o = c.nativeOne(r.h.Func, vec, to)
						if !bad(o) && len(errs) > 0 {
							o = natOut{Status: "crash", Msg: errs}
						}
					}
				}
			} else {
				o = c.nativeOne(r.h.Func, vec, to)
			}
			v.NativeOut = o.Status + ": " + o.Msg
			if bad(o) {
				accept(v, o)
				ok = true
				break
			}
			v.Native = "not-reproduced"
			if time.Since(t0) > 30*time.Second {
				break
			}
		}
		if !ok && len(vs) > 0 {
			r.unconf = append(r.unconf, vs[0])
		}
	}
	// sampled passing paths: the real code must do what the symbolic run did
	var vecs [][]byte
	var idx []*Sample
	for _, s := range r.res.samples {
		vecs = append(vecs, vecJSON(s.Inputs, r.params))
		idx = append(idx, s)
	}
	for len(vecs) > 0 {
		rs, errs, hung := c.nativeBatch(r.h.Func, vecs, 60*time.Second)
		for i, o := range rs {
			s := idx[i]
			switch {
			case bad(o):
				v := &Violation{Kind: o.Status, Msg: o.Msg, Inputs: s.Inputs, Harness: r.h.Func, Params: r.params, Trace: "solver-generated input of a path the symbolic run completed"}
				accept(v, o)
				r.mismatched = append(r.mismatched, fmt.Sprintf("native %s: %s on %s", o.Status, firstLine(o.Msg), showInputs(s.Inputs)))
			case o.Status != "ok":
				r.mismatched = append(r.mismatched, fmt.Sprintf("native %s: %s on %s", o.Status, o.Msg, showInputs(s.Inputs)))
			case !s.NonNative && !eqStrs(o.Obs, s.Obs):
				r.mismatched = append(r.mismatched, fmt.Sprintf("observations differ on %s: native %v symbolic %v", showInputs(s.Inputs), o.Obs, s.Obs))
			default:
				r.validated++
			}
		}
		n := len(rs)
		if n >= len(vecs) {
			break
		}
		// the process died on vector n
		o := c.nativeOne(r.h.Func, vecs[n], 20*time.Second)
		if bad(o) {
			v := &Violation{Kind: o.Status, Msg: o.Msg, Inputs: idx[n].Inputs, Harness: r.h.Func, Params: r.params}
			accept(v, o)
		} else {
			r.natErr = append(r.natErr, firstLine(errs))
			if hung {
				break
			}
		}
		vecs, idx = vecs[n+1:], idx[n+1:]
	}
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *Check) loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var k []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		m := knownRE.FindStringSubmatch(l)
		if m == nil {
			fmt.Fprintln(os.Stderr, "known-findings.txt: cannot read:", l)
			continue
		}
		k = append(k, known{Property: m[1], Harness: m[2], Match: m[3], What: m[4]})
	}
	return k
}

func (c *Check) writeReplay(v *Violation, n int) string {
	dir := filepath.Join(c.verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.sp.ID, n))
	b, _ := json.MarshalIndent(map[string]any{"property": c.sp.ID, "harness": v.Harness, "kind": v.Kind, "message": v.Msg, "inputs": v.Inputs, "params": v.Params, "readable": showInputs(v.Inputs), "symbolic_trace": v.Trace, "native": v.NativeOut}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func (c *Check) evidence(reps []*harnessReport, viol int) {
	cov := map[string]any{}
	var states, trans, validated, queries, asserts int64
	var hs []any
	var samples []any
	fnset := map[string]int{}
	for _, r := range reps {
		rs := r.res
		np := int64(0)
		for _, n := range rs.paths {
			np += int64(n)
		}
		states += rs.steps
		trans += np
		validated += int64(r.validated)
		queries += int64(rs.queries)
		asserts += rs.asserts
		h := map[string]any{
			"harness": r.h.Func, "what": r.h.What, "params": r.params, "wall_s": r.wall.Seconds(),
			"paths": rs.paths, "ssa_instructions_executed": rs.steps, "forks": rs.choices,
			"assertions_checked": rs.asserts, "assertions_decided_by_solver": rs.assertSolver, "assertions_constant_on_path": rs.assertConst,
			"solver_queries": rs.queries, "solver_sat": rs.sat, "solver_unsat": rs.unsat, "solver_unknown": rs.unknown, "solver_s": rs.solverDur.Seconds(),
			"branches_decided_by_byte_domain": rs.bitsetDecs, "branches_decided_by_solver": rs.solverDecs,
			"exhaustive_within_bounds": !rs.incomplete && len(rs.engErrs) == 0 && rs.paths["timeout"] == 0 && rs.paths["unknown"] == 0 && len(rs.bounds) == 0,
			"cover": rs.cover, "cover_missing": r.missing, "symbolic_inputs": rs.inputs,
			"traces_validated_against_impl": r.validated, "trace_mismatches": r.mismatched, "native_errors": r.natErr,
			"bounds_hit": rs.bounds, "engine_limits": rs.engErrs, "known_findings": r.knownHit,
		}
		var unc []string
		for _, v := range r.unconf {
			unc = append(unc, fmt.Sprintf("%s: %s [%s] native: %s", v.Kind, firstLine(v.Msg), showInputs(v.Inputs), firstLine(v.NativeOut)))
		}
		h["candidates_not_reproduced"] = unc
		hs = append(hs, h)
		for i, s := range rs.samples {
			if i >= 4 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.h.Func, "inputs": showInputs(s.Inputs), "observed": s.Obs})
		}
	}
	var fns []string
	if c.p != nil {
		c.p.fns.Range(func(k, v any) bool {
			f := v.(*Func)
			if f.inRepo() && atomic.LoadInt32(&f.hit) > 0 {
				fnset[f.name]++
			}
			return true
		})
	}
	for f := range fnset {
		if !strings.Contains(f, "/zz_") {
			fns = append(fns, strings.ReplaceAll(f, repoModule, "libopenapi"))
		}
	}
	sort.Strings(fns)
	cov["states"] = states
	cov["transitions"] = trans
	cov["states_meaning"] = "SSA instructions executed symbolically; transitions = explored paths (each stands for all inputs satisfying its path condition)"
	cov["traces_validated_against_impl"] = validated
	if samples == nil {
		samples = []any{}
	}
	cov["samples"] = samples
	cov["harnesses"] = hs
	cov["functions_encoded"] = fns
	cov["functions_encoded_count"] = len(fns)
	cov["solver_queries"] = queries
	cov["assertions_checked"] = asserts
	cov["solver"] = solverBin()
	cov["load_s"] = c.loadDur.Seconds()
	cov["bounds"] = c.sp.Bounds
	ev := map[string]any{"property": c.sp.ID, "tier": c.tier, "seed": c.seed, "level": c.sp.Level, "coverage": cov, "assumptions": c.sp.Assume, "wall_s": time.Since(c.start).Seconds(), "violations": viol}
	if c.sp.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.sp.ID+".json"), append(b, '\n'), 0o644)
}

func (c *Check) summary(reps []*harnessReport, viol int) {
	for _, r := range reps {
		rs := r.res
		c.say("%s/%s: paths=%v asserts=%d (solver %d) queries=%d unk=%d solver=%.1fs steps=%d wall=%.1fs validated=%d incomplete=%v cover=%v", c.sp.ID, r.h.Func, rs.paths, rs.asserts, rs.assertSolver, rs.queries, rs.unknown, rs.solverDur.Seconds(), rs.steps, r.wall.Seconds(), r.validated, rs.incomplete, rs.cover)
		if len(r.missing) > 0 {
			c.say("  NOT REACHED: %v", r.missing)
		}
		for _, k := range sortedKeys(rs.bounds) {
			c.say("  bound: %s (%d)", k, rs.bounds[k])
		}
		for i, k := range sortedKeys(rs.engErrs) {
			if i < 8 {
				c.say("  limit: %s (%d)", k, rs.engErrs[k])
			}
		}
		for i, mm := range r.mismatched {
			if i < 5 {
				c.say("  MISMATCH: %s", mm)
			}
		}
		for i, v := range r.unconf {
			if i < 8 {
				c.say("  unconfirmed candidate: %s: %s [%s] trace=%s native=%s", v.Kind, firstLine(v.Msg), showInputs(v.Inputs), v.Trace, firstLine(v.NativeOut))
			}
		}
		for _, e := range r.natErr {
			c.say("  native error: %s", e)
		}
	}
	c.say("%s: %d violation(s), %.1fs", c.sp.ID, viol, time.Since(c.start).Seconds())
}
