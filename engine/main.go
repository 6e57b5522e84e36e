package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ---- property specification: /verif/harness/<ID>/spec.json ----

type TierSpec struct {
	Params  map[string]int `json:"params"`
	BudgetS float64        `json:"budget_s"`
	Skip    bool           `json:"skip"`
}

type HarnessSpec struct {
	Func     string   `json:"func"`
	What     string   `json:"what"`
	Quick    TierSpec `json:"quick"`
	Thorough TierSpec `json:"thorough"`
	Cover    []string `json:"cover"`   // labels that must be reached (vacuity witnesses)
	Native   string   `json:"native"`  // "" replay once; "repeat" replays many times (schedules, map order)
	Race     bool     `json:"race"`    // build the replayer with -race
	Panics   bool     `json:"panics"`  // an escaping panic breaks the property (default: it always does)
	Solver   int      `json:"solver_ms"`
	MaxSteps int64    `json:"max_steps"`
	StepBudgetViolates bool `json:"hang"` // running out of steps breaks the property when the native run hangs too
}

type Spec struct {
	ID        string        `json:"id"`
	Pkg       string        `json:"pkg"` // harness directory, default ID
	Level     string        `json:"level"`
	Harnesses []HarnessSpec `json:"harnesses"`
	Assume    []string      `json:"assumptions"`
	Bounds    []string      `json:"bounds"`
	Inpkg     map[string]string `json:"inpkg"` // file under harness/<pkg>/inpkg -> path below /repo
}

const goroot = "/opt/veriftools/go1.25.14"

var modelNames = map[string]string{
	"errors.As":                     "ErrorsAs",
	"errors.Is":                     "ErrorsIs",
	"sort.Slice":                    "SortSlice",
	"sort.SliceStable":              "SortSlice",
	"sort.SliceIsSorted":            "SortSliceIsSorted",
	"(*sync.Map).Range":             "SyncMapRange",
	"reflect.Swapper":               "ReflectSwapper",
	"internal/reflectlite.Swapper":  "ReflectSwapper",
	"os.ReadFile":                   "OsReadFile",
	"os.Open":                       "OsOpen",
	"os.OpenFile":                   "OsOpenFile",
	"os.Stat":                       "OsStat",
	"os.Lstat":                      "OsStat",
	"os.ReadDir":                    "OsReadDir",
	"os.WriteFile":                  "OsWriteFile",
	"os.DirFS":                      "OsDirFS",
	"crypto/rand.Int":               "RandInt",
	"net/http.Get":                  "HttpGet",
	"(*net/http.Client).Do":         "HttpClientDo",
	"(*net/http.Client).Get":        "HttpClientGet",
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOROOT", "PATH", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "GOWORK", "GOPATH", "GOMODCACHE", "GOCACHE":
			continue
		}
		env = append(env, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	return append(env, "GOROOT="+goroot, "PATH="+goroot+"/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local",
		"GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOPATH="+home+"/go", "GOMODCACHE="+home+"/go/pkg/mod",
		"GOCACHE="+home+"/.cache/go-build", "CGO_ENABLED=0")
}

// overlayFor returns virtual path -> real file for the harness, the runtime and in-package files.
func overlayFor(verif, repo string, sp *Spec, native bool) map[string]string {
	ov := map[string]string{}
	add := func(dir, dst string) {
		ents, err := os.ReadDir(dir)
		if err != nil {
			return
		}
		for _, e := range ents {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			ov[filepath.Join(dst, e.Name())] = filepath.Join(dir, e.Name())
		}
	}
	add(filepath.Join(verif, "rt/zz_vsym"), filepath.Join(repo, "zz_vsym"))
	if !native {
		add(filepath.Join(verif, "rt/zz_vmodel"), filepath.Join(repo, "zz_vmodel"))
	}
	add(filepath.Join(verif, "rt/zz_hlib"), filepath.Join(repo, "zz_hlib"))
	add(filepath.Join(verif, "harness", sp.Pkg), filepath.Join(repo, "zz_verif", sp.Pkg))
	for f, dst := range sp.Inpkg {
		ov[filepath.Join(repo, dst)] = filepath.Join(verif, "harness", sp.Pkg, "inpkg", f)
	}
	return ov
}

func loadProg(verif, repo string, sp *Spec) (*Prog, *ssa.Package, error) {
	// go/packages looks the go command up in this process's PATH
	os.Setenv("PATH", goroot+"/bin:"+os.Getenv("PATH"))
	os.Setenv("GOROOT", goroot)
	ov := map[string][]byte{}
	for v, r := range overlayFor(verif, repo, sp, false) {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, nil, err
		}
		ov[v] = b
	}
	hp := repoModule + "/zz_verif/" + sp.Pkg
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: ov}
	ps, err := packages.Load(cfg, hp, repoModule+"/zz_vmodel", "reflect", "runtime")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			// body-less functions of the model package are expected
			if strings.Contains(e.Msg, "missing function body") {
				continue
			}
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := newProg(prog)
	var main *ssa.Package
	var vm *ssa.Package
	for _, sp := range prog.AllPackages() {
		switch sp.Pkg.Path() {
		case hp:
			main = sp
		case repoModule + "/zz_vmodel":
			vm = sp
		case "reflect":
			p.structFieldT = TI(sp.Pkg.Scope().Lookup("StructField").Type())
			p.methodT = TI(sp.Pkg.Scope().Lookup("Method").Type())
			p.rtypeT = TI(types.NewPointer(sp.Pkg.Scope().Lookup("rtype").Type()))
		case "runtime":
			p.rtErrT = TI(sp.Pkg.Scope().Lookup("errorString").Type())
		}
	}
	if main == nil || vm == nil {
		return nil, nil, fmt.Errorf("harness package not loaded")
	}
	main.Build()
	for n, f := range modelNames {
		mf := vm.Func(f)
		if mf == nil {
			return nil, nil, fmt.Errorf("model %s missing", f)
		}
		p.models[n] = mf
	}
	prog.Build()
	return p, main, nil
}

func main() {
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	tier := flag.String("tier", "", "quick or thorough")
	only := flag.String("only", "", "run one harness")
	params := flag.String("p", "", "override params: a=1,b=2")
	budget := flag.Float64("budget", 0, "override budget")
	workers := flag.Int("j", runtime.NumCPU(), "")
	verbose := flag.Bool("v", false, "")
	nonative := flag.Bool("nonative", false, "")
	scale := flag.Float64("scale", 1, "scale budgets")
	flag.Parse()
	if flag.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: gosym [flags] <property>")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	debug.SetMaxStack(1 << 30)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	id := flag.Arg(0)
	b, err := os.ReadFile(filepath.Join(*verif, "harness", id, "spec.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sp := &Spec{}
	if err := json.Unmarshal(b, sp); err != nil {
		fmt.Fprintln(os.Stderr, id, err)
		os.Exit(2)
	}
	if sp.ID == "" {
		sp.ID = id
	}
	if sp.Pkg == "" {
		sp.Pkg = id
	}
	if sp.Level == "" {
		sp.Level = "model_checking"
	}
	if *params != "" {
		for i := range sp.Harnesses {
			for _, t := range []*TierSpec{&sp.Harnesses[i].Quick, &sp.Harnesses[i].Thorough} {
				if t.Params == nil {
					t.Params = map[string]int{}
				}
				for _, kv := range strings.Split(*params, ",") {
					x := strings.SplitN(kv, "=", 2)
					v := 0
					fmt.Sscanf(x[1], "%d", &v)
					t.Params[x[0]] = v
				}
			}
		}
	}
	c := &Check{sp: sp, verif: *verif, repo: *repo, tier: *tier, seed: seed, only: *only, workers: *workers, verbose: *verbose, native: !*nonative, budget: *budget, scale: *scale, start: time.Now()}
	if p := os.Getenv("GOSYM_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer f.Close()
	}
	rc := c.run()
	pprof.StopCPUProfile()
	if forkProf {
		printForks()
	}
	os.Exit(rc)
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
