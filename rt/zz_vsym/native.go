// Package zz_vsym is the harness interface. Under the symbolic executor its functions are
// intrinsics; this native implementation replays one recorded input vector.
package zz_vsym

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
)

type inputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	S    string `json:"s"`
}

type vector struct {
	Inputs []inputVal     `json:"inputs"`
	Params map[string]int `json:"params"`
}

type Stop struct{ Kind, Msg string }

var vec vector
var pos int
var Obs []string
var Failed []string

func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return LoadJSON(b)
}

func LoadJSON(b []byte) error {
	vec = vector{}
	pos = 0
	Obs = nil
	Failed = nil
	return json.Unmarshal(b, &vec)
}

func take(name, kind string) inputVal {
	if pos >= len(vec.Inputs) {
		panic(Stop{"exhausted", "input " + name + " not in the vector"})
	}
	v := vec.Inputs[pos]
	pos++
	return v
}

func num(name, kind string) int64 {
	v := take(name, kind)
	n, err := strconv.ParseInt(v.S, 10, 64)
	if err != nil {
		panic(Stop{"mismatch", fmt.Sprintf("input %s: recorded %s %q", name, v.Kind, v.S)})
	}
	return n
}

func str(name string) string {
	v := take(name, "string")
	b, err := hex.DecodeString(v.S)
	if err != nil || v.Kind != "string" {
		panic(Stop{"mismatch", "input " + name})
	}
	return string(b)
}

// Symbolic reports whether the harness runs under the symbolic executor.
func Symbolic() bool { return false }

func Bool(name string) bool                                      { return num(name, "bool") != 0 }
func Byte(name string) byte                                      { return byte(num(name, "byte")) }
func Int(name string, lo, hi int) int                            { return int(num(name, "int")) }
func Int64(name string) int64                                    { return num(name, "int") }
func Uint64(name string) uint64                                  { return uint64(num(name, "int")) }
func Float64bits(name string) uint64                             { return uint64(num(name, "int")) }
func Choice(name string, n int) int                              { return int(num(name, "int")) }
func String(name string, min, max int) string                    { return str(name) }
func StringOf(name string, min, max int, alphabet string) string { return str(name) }

// Pick forks over the given strings.
func Pick(name string, opts ...string) string { return opts[Choice(name, len(opts))] }

func Assume(c bool) {
	if !c {
		panic(Stop{"assume", "assumption not satisfied"})
	}
}

func Assert(c bool, msg string) {
	if !c {
		Failed = append(Failed, msg)
		panic(Stop{"assert", msg})
	}
}

func Cover(label string) {}

func Param(name string, def int) int {
	if v, ok := vec.Params[name]; ok {
		return v
	}
	return def
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func ObserveS(label string, v string) { Obs = append(Obs, label+"="+strconv.Quote(v)) }
func ObserveI(label string, v int)    { Obs = append(Obs, label+"="+strconv.Itoa(v)) }
func ObserveB(label string, v bool)   { Obs = append(Obs, label+"="+strconv.FormatBool(v)) }

// Schedule turns on exploration of goroutine interleavings with at most n deviations from round-robin order
// (a preemption at a synchronisation operation, another goroutine picked, another select case taken).
func Schedule(n int) {}
func EndSchedule()   {}

// MapOrder selects how map iteration order is explored: 0 insertion, 1 all orders, 2 forward and reverse.
func MapOrder(mode int) {}

// LooseQuote renders symbolic text in %q without escaping under the symbolic executor.
func LooseQuote(on bool) {}

func Concretize(s string) string { return s }

// EventCount is the number of accesses to the outside world recorded so far (symbolic mode only).
func EventCount() int { return 0 }

// Main replays the vectors on standard input through the named harness, one JSON line each.
func Main(hs map[string]func()) {
	debug.SetMaxStack(256 << 20)
	h, ok := hs[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "no harness", os.Args[1])
		os.Exit(3)
	}
	out := os.Stdout
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	for i := 0; ; i++ {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			st, msg := runOne(h, line)
			b, _ := json.Marshal(map[string]any{"i": i, "status": st, "msg": msg, "obs": Obs})
			fmt.Fprintf(out, "\n\x01GOSYM:%s\n", b)
		}
		if err != nil {
			return
		}
	}
}

func runOne(h func(), line []byte) (st, msg string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(Stop); ok {
				st, msg = s.Kind, s.Msg
				return
			}
			st, msg = "panic", fmt.Sprint(r)
			if os.Getenv("GOSYM_STACK") != "" {
				msg += "\n" + string(debug.Stack())
			}
		}
	}()
	if err := LoadJSON(line); err != nil {
		return "mismatch", err.Error()
	}
	h()
	if len(Failed) > 0 {
		return "assert", Failed[0]
	}
	return "ok", ""
}
