package P02

import (
	"errors"
	"io"

	"github.com/pb33f/libopenapi/datamodel"
	"github.com/pb33f/libopenapi/orderedmap"
	zz "github.com/pb33f/libopenapi/zz_vsym"
)

var errT = errors.New("translate")
var errR = errors.New("result")

const (
	ok = iota
	fail
	eof
	cont
	rfail
	reof
)

type plan struct {
	out   []int
	calls []int
	got   []int
	after bool
	late  bool
}

func (p *plan) translate(i int) (int, error) {
	p.calls[i]++
	if p.after {
		p.late = true
	}
	switch p.out[i] {
	case fail:
		return 0, errT
	case eof:
		return 0, io.EOF
	case cont:
		return 0, datamodel.Continue
	}
	return 100 + i, nil
}

func (p *plan) result(v int) error {
	i := v - 100
	p.got = append(p.got, i)
	switch p.out[i] {
	case rfail:
		return errR
	case reof:
		return io.EOF
	}
	return nil
}

// check compares with the sequential meaning.
func (p *plan) check(err error, strict bool) {
	var want []int
	var wantErr error
	stop := len(p.out)
	for i, o := range p.out {
		if o == fail {
			wantErr = errT
		}
		if o == fail || o == eof {
			stop = i
			break
		}
		if o == cont {
			continue
		}
		want = append(want, i)
		if o == rfail {
			wantErr = errR
		}
		if o == rfail || o == reof {
			stop = i
			break
		}
	}
	zz.Assert(err == wantErr, "the error is that of the first failing item; io.EOF ends without error")
	zz.Assert(len(p.got) == len(want), "results are delivered up to the first stop and no further")
	for i := range want {
		zz.Assert(p.got[i] == want[i], "results arrive in input order")
	}
	for i, c := range p.calls {
		zz.Assert(c <= 1, "no item is translated twice")
		if i <= stop {
			zz.Assert(c == 1 || i == len(p.out), "every item before the stop is translated")
		} else if strict {
			zz.Assert(c == 0, "nothing is translated after the stop")
		}
	}
	zz.Assert(!p.late, "no translation runs after the call returned")
	if stop < len(p.out) {
		if err == nil {
			zz.Cover("eof")
		} else {
			zz.Cover("err")
		}
	} else {
		zz.Cover("all")
	}
}

func mk(n int, kinds int) *plan {
	p := &plan{out: make([]int, n), calls: make([]int, n)}
	for i := range p.out {
		p.out[i] = zz.Choice("outcome", kinds)
		if p.out[i] == cont {
			zz.Cover("cont")
		}
	}
	return p
}

func SliceSeq() {
	n := zz.Param("n", 3)
	p := mk(n, 6)
	in := make([]int, n)
	for i := range in {
		in[i] = i
	}
	err := datamodel.TranslateSliceParallel(in, func(i int, v int) (int, error) {
		zz.Assert(i == v, "translate receives the element at its index")
		return p.translate(i)
	}, p.result)
	p.check(err, true)
	zz.Assert(datamodel.TranslateSliceParallel[int, int](nil, nil, nil) == nil, "a nil slice is accepted")
}

func toMap(n int) *orderedmap.Map[string, int] {
	m := orderedmap.New[string, int]()
	for i := 0; i < n; i++ {
		m.Set(string(rune('a'+i)), i)
	}
	return m
}

func noCont(p *plan) {
	for _, o := range p.out {
		zz.Assume(o != cont)
	}
}

func MapSeq() {
	n := zz.Param("n", 3)
	p := mk(n, 6)
	noCont(p)
	err := datamodel.TranslateMapParallel(toMap(n), func(pr orderedmap.Pair[string, int]) (int, error) {
		zz.Assert(pr.Key() == string(rune('a'+pr.Value())), "translate receives the pair")
		return p.translate(pr.Value())
	}, p.result)
	p.check(err, true)
	var nm *orderedmap.Map[string, int]
	zz.Assert(datamodel.TranslateMapParallel[string, int, int](nm, nil, nil) == nil, "a nil map is accepted")
}

// big plans: at most two items deviate
func bigPlan(n int, noC bool) *plan {
	p := &plan{out: make([]int, n), calls: make([]int, n)}
	a := []int{0, 1, 9, n - 1}[zz.Choice("pos", 4)]
	k := zz.Choice("kind", 6)
	if noC && k == cont {
		k = ok
	}
	p.out[a] = k
	if zz.Choice("second", 2) == 1 && a+1 < n {
		p.out[a+1] = fail
	}
	return p
}

func SlicePar() {
	n := zz.Param("n", 17)
	p := bigPlan(n, false)
	in := make([]int, n)
	zz.Schedule(zz.Param("pre", 0))
	err := datamodel.TranslateSliceParallel(in, func(i int, v int) (int, error) { return p.translate(i) }, p.result)
	p.after = true
	zz.EndSchedule()
	p.check(err, false)
}

func MapPar() {
	n := zz.Param("n", 17)
	p := bigPlan(n, true)
	m := toMap(n)
	zz.Schedule(zz.Param("pre", 0))
	err := datamodel.TranslateMapParallel(m, func(pr orderedmap.Pair[string, int]) (int, error) { return p.translate(pr.Value()) }, p.result)
	p.after = true
	zz.EndSchedule()
	p.check(err, false)
}

func Pipe() {
	n := zz.Param("n", 3)
	p := &plan{out: make([]int, n), calls: make([]int, n)}
	for i := range p.out {
		p.out[i] = []int{ok, fail, cont}[zz.Choice("outcome", 3)]
	}
	in := make(chan int)
	out := make(chan int)
	stop := make(chan struct{})
	zz.Schedule(zz.Param("pre", 0))
	go func() {
		defer close(in)
		for i := 0; i < n; i++ {
			select {
			case in <- i:
			case <-stop:
				return
			}
		}
	}()
	fin := make(chan struct{})
	go func() {
		for v := range out {
			p.got = append(p.got, v-100)
		}
		close(fin)
	}()
	err := datamodel.TranslatePipeline(in, out, p.translate)
	p.after = true
	close(stop)
	<-fin // out is closed
	zz.EndSchedule()
	failed := false
	for i, o := range p.out {
		zz.Assert(p.calls[i] <= 1, "no item is translated twice")
		if o == fail {
			failed = true
		}
	}
	zz.Assert(failed == (err != nil), "an error is returned iff some translation failed")
	zz.Assert(!p.late, "no translation runs after the call returned")
	var want []int
	for i, o := range p.out {
		if o == ok {
			want = append(want, i)
		}
	}
	if !failed {
		zz.Cover("all")
		zz.Assert(len(p.got) == len(want), "every result is delivered")
	} else {
		zz.Cover("err")
		zz.Assert(err == errT, "the translation's error is returned")
		zz.Assert(len(p.got) <= len(want), "no result is invented")
	}
	for i := range p.got {
		zz.Assert(i < len(want) && p.got[i] == want[i], "results arrive in input order")
	}
}
