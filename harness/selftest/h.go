package selftest

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"

	zz "github.com/pb33f/libopenapi/zz_vsym"
	"go.yaml.in/yaml/v4"
)

type sh interface{ Area() float64 }
type sq struct{ a float64 }
type ci struct{ r float64 }

func (s sq) Area() float64  { return s.a * s.a }
func (c *ci) Area() float64 { return c.r * 3 }

type emb struct {
	sq
	n  int
	ar [3]int
	m  map[string][]int
}

func divs(a, b int) (r int, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("rec: %v", x)
		}
	}()
	return a / b, nil
}

type num interface{ ~int | ~float64 }

func sum[T num](xs ...T) (t T) {
	for _, x := range xs {
		t += x
	}
	return
}

type myErr struct{ c int }

func (m *myErr) Error() string { return "my" + strconv.Itoa(m.c) }

func fib(n int) int {
	if n < 2 {
		return n
	}
	return fib(n-1) + fib(n-2)
}

func Basics() {
	zz.ObserveI("fib", fib(12))
	e := emb{sq: sq{2}, n: 4, m: map[string][]int{"a": {1, 2}}}
	f := e
	f.ar[1] = 7
	f.m["b"] = append(f.m["a"], 5)
	zz.ObserveI("ar", e.ar[1]*10+f.ar[1])
	zz.ObserveI("mlen", len(e.m))
	zz.ObserveI("area", int(e.Area()))
	var s sh = &ci{4}
	zz.ObserveI("area2", int(s.Area()))
	if _, ok := s.(sq); ok {
		zz.ObserveS("bad", "x")
	}
	_, err := divs(4, 0)
	zz.ObserveS("div", err.Error())
	var mp map[string]int
	func() {
		defer func() { zz.ObserveS("nilmap", fmt.Sprint(recover())) }()
		mp["x"] = 1
	}()
	func() {
		defer func() { zz.ObserveS("idx", fmt.Sprint(recover())) }()
		a := []int{1, 2, 3}
		i := 5
		zz.ObserveI("n", a[i])
	}()
	func() {
		defer func() { zz.ObserveS("ta", fmt.Sprint(recover())) }()
		var x any = "s"
		zz.ObserveI("n", x.(int))
	}()
	func() {
		defer func() { zz.ObserveS("ta", fmt.Sprint(recover())) }()
		var x any = sq{1}
		_ = x.(fmt.Stringer)
	}()
	func() {
		defer func() { zz.ObserveS("np", fmt.Sprint(recover())) }()
		var x *emb
		zz.ObserveI("n", x.n)
	}()
	zz.ObserveI("sum", sum(1, 2, 3)+int(sum(1.5, 2.5)))
	var fs []func() int
	for i := 0; i < 3; i++ {
		fs = append(fs, func() int { i += 10; return i })
	}
	t := 0
	for _, f := range fs {
		t = t*100 + f()
	}
	zz.ObserveI("clos", t)
	a := make([]int, 2, 8)
	b := append(a, 1)
	c := append(a, 2)
	zz.ObserveI("alias", b[2]*10+c[2])
	copy(a, []int{9, 8, 7})
	zz.ObserveI("copy", a[1]+len(a[:5])+cap(a[1:3:6]))
	sort.Ints(b)
	xs := []string{"pear", "apple", "fig"}
	sort.Slice(xs, func(i, j int) bool { return len(xs[i]) < len(xs[j]) })
	zz.ObserveS("sort", strings.Join(xs, ","))
	sort.Strings(xs)
	zz.ObserveS("sort", strings.Join(xs, ","))
	w := fmt.Errorf("w: %w", &myErr{3})
	var me *myErr
	zz.ObserveB("as", errors.As(w, &me) && me.c == 3)
	zz.ObserveB("is", errors.Is(w, me))
	j := errors.Join(w, errors.New("z"))
	zz.ObserveS("join", j.Error())
	zz.ObserveB("is2", errors.Is(j, me))
	switch x := any(w).(type) {
	case interface{ Unwrap() error }:
		zz.ObserveS("sw", x.Unwrap().Error())
	default:
		zz.ObserveS("sw", "no")
	}
	type key struct {
		a string
		b int
	}
	km := map[key]int{{"a", 1}: 1}
	km[key{"a", 2}] = 5
	km[key{"a", 1}]++
	delete(km, key{"a", 2})
	zz.ObserveI("km", km[key{"a", 1}]*10+len(km))
	im := map[any]int{1: 2, "x": 3, 1.5: 4}
	zz.ObserveI("im", im[1]*100+im["x"]*10+im[1.5])
	var u8 uint8 = 250
	u8 += 10
	var i8 int8 = 127
	i8++
	zz.ObserveI("wrap", int(u8)*1000+int(i8))
	zz.ObserveI("shift", -17>>2+(1<<5)%7+-17/4+-17%4)
	zz.ObserveI("f2i", int(math.Floor(2.7))+int(math.Pow(2, 5)))
	var arr [4]int
	for i := range arr {
		arr[i] = i * i
	}
	ar2 := arr
	ar2[0] = 5
	zz.ObserveB("arreq", arr == ar2)
	pp := &arr[2]
	*pp = 100
	zz.ObserveI("pp", arr[2])
	goto L
L:
	for i := range 3 {
		if i == 1 {
			continue
		}
		t += i
	}
	zz.ObserveI("t", t)
	for x := range func(y func(int) bool) {
		for i := 0; i < 5; i++ {
			if !y(i) {
				return
			}
		}
	} {
		if x == 3 {
			break
		}
		t += x
	}
	zz.ObserveI("t", t)
	zz.ObserveI("min", min(3, 1, 2)+max(4, 9))
	x := []int{1, 2, 3}
	clear(x)
	zz.ObserveI("clr", x[0]+x[2])
	p3 := (*[2]int)(x[:2])
	p3[1] = 44
	zz.ObserveI("s2a", x[1])
}

func Strs() {
	s := "Héllo, 世界!"
	for i, r := range s {
		zz.ObserveS("r", strconv.Itoa(i)+string(r))
	}
	zz.ObserveI("rl", len([]rune(s)))
	zz.ObserveS("up", strings.ToUpper(s)+strings.ToLower(s)+strings.Title("foo bar"))
	zz.ObserveS("rep", strings.ReplaceAll(s, "l", "LL"))
	zz.ObserveS("spl", strings.Join(strings.Split("a/b//c", "/"), "|"))
	zz.ObserveS("fld", strings.Join(strings.Fields("  a b\tc  "), "|"))
	zz.ObserveS("trim", strings.TrimSpace("  x ")+strings.Trim("--x--", "-")+strings.TrimPrefix("abc", "a")+strings.TrimLeft("aab", "a"))
	zz.ObserveI("idx", strings.Index("chicken", "ken")*100+strings.LastIndex("go gopher", "go")*10+strings.IndexByte("abc", 'c'))
	zz.ObserveI("cnt", strings.Count("cheese", "e"))
	zz.ObserveB("ef", strings.EqualFold("Go", "GO"))
	zz.ObserveS("q", strconv.Quote("a\"b\n\x01é"))
	n, err := strconv.Atoi("12x")
	zz.ObserveS("atoi", fmt.Sprint(n, err))
	ff, _ := strconv.ParseFloat("3.25e2", 64)
	zz.ObserveS("ff", strconv.FormatFloat(ff, 'g', -1, 64))
	_, err = strconv.ParseInt("99999999999999999999", 10, 64)
	zz.ObserveS("pi", err.Error())
	re := regexp.MustCompile(`^(\w+)-(\d+)$`)
	m := re.FindStringSubmatch("abc-123")
	zz.ObserveS("re", strings.Join(m, ";"))
	zz.ObserveS("re2", regexp.MustCompile(`[^a-z]+`).ReplaceAllString("ab12cd--e", "_"))
	var sb strings.Builder
	sb.WriteString("x")
	sb.WriteByte('y')
	sb.WriteRune('é')
	fmt.Fprintf(&sb, "%d", 5)
	zz.ObserveS("sb", sb.String())
	zz.ObserveB("uni", unicode.IsUpper('É') && unicode.IsLetter('世') && !unicode.IsDigit('x'))
	zz.ObserveS("map", strings.Map(func(r rune) rune {
		if r == 'l' {
			return -1
		}
		return r + 1
	}, "hello"))
	r := strings.NewReplacer("<", "&lt;", ">", "&gt;")
	zz.ObserveS("nr", r.Replace("a<b>c"))
	b, a, ok := strings.Cut("k=v", "=")
	zz.ObserveS("cut", b+a+strconv.FormatBool(ok))
	zz.ObserveS("bytes", string([]byte("abc")[1:])+string(rune(0x4e16))+string([]rune{65, 66}))
	zz.ObserveS("inv", fmt.Sprintf("%q", []rune("a\xffb")))
	zz.ObserveB("cmp", "abc" < "abd" && "ab" < "abc" && "b" > "abc")
}

type rt struct {
	A string `yaml:"a"`
	B *int   `json:"b,omitempty"`
	C []string
	d int
	E map[string]any
	F sh
}

func (r rt) Hello(x string) string { return r.A + x }
func (r *rt) SetA(x string)        { r.A = x }

func Refl() {
	n := 3
	v := &rt{A: "x", B: &n, C: []string{"p"}, E: map[string]any{"k": 1}}
	rv := reflect.ValueOf(v).Elem()
	t := rv.Type()
	zz.ObserveS("t", t.String()+t.Name()+t.PkgPath()+rv.Kind().String())
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		zz.ObserveS("f", f.Name+f.Type.String()+string(f.Tag)+f.Tag.Get("yaml")+strconv.FormatBool(f.IsExported()))
	}
	rv.Field(0).SetString("yy")
	rv.FieldByName("C").Set(reflect.ValueOf([]string{"q", "r"}))
	rv.FieldByName("B").Elem().SetInt(44)
	zz.ObserveS("a", v.A+v.C[1]+strconv.Itoa(*v.B))
	zz.ObserveB("inv", rv.FieldByName("nope").IsValid())
	m := reflect.ValueOf(v).MethodByName("SetA")
	m.Call([]reflect.Value{reflect.ValueOf("called")})
	zz.ObserveS("a", v.A)
	zz.ObserveS("h", rv.MethodByName("Hello").Call([]reflect.Value{reflect.ValueOf("!")})[0].String())
	zz.ObserveI("nm", reflect.TypeOf(v).NumMethod()*10+t.NumMethod())
	nv := reflect.New(t).Elem()
	zz.ObserveB("zero", nv.IsZero() && nv.Field(1).IsNil())
	mm := reflect.MakeMap(reflect.TypeOf(map[string]int{}))
	mm.SetMapIndex(reflect.ValueOf("a"), reflect.ValueOf(5))
	zz.ObserveI("mm", mm.Interface().(map[string]int)["a"])
	for _, k := range rv.FieldByName("E").MapKeys() {
		zz.ObserveS("k", k.String())
	}
	sl := reflect.MakeSlice(reflect.TypeOf([]int{}), 0, 2)
	sl = reflect.Append(sl, reflect.ValueOf(7))
	zz.ObserveI("sl", int(sl.Index(0).Int())+sl.Len())
	zz.ObserveB("de", reflect.DeepEqual(map[string][]int{"a": {1}}, map[string][]int{"a": {1}}) && !reflect.DeepEqual([]int{1}, []int{2}))
	var e error
	zz.ObserveB("impl", reflect.TypeOf(&myErr{}).Implements(reflect.TypeOf(&e).Elem()))
	zz.ObserveS("k", reflect.TypeOf(&e).Elem().Kind().String()+reflect.TypeOf(v.E).Elem().Kind().String())
	var nilp *rt
	zz.ObserveB("nil", reflect.ValueOf(nilp).IsNil() && !reflect.ValueOf(nil).IsValid())
	zz.ObserveB("conv", reflect.ValueOf(3).Convert(reflect.TypeOf(1.0)).Float() == 3)
	fn := reflect.ValueOf(fib)
	zz.ObserveI("fn", int(fn.Call([]reflect.Value{reflect.ValueOf(10)})[0].Int()))
}

func Conc() {
	ch := make(chan int, 2)
	done := make(chan struct{})
	var mu sync.Mutex
	tot := 0
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for x := range ch {
				mu.Lock()
				tot += x
				mu.Unlock()
			}
		}(i)
	}
	for i := 1; i <= 10; i++ {
		ch <- i
	}
	close(ch)
	go func() { wg.Wait(); close(done) }()
	<-done
	zz.ObserveI("tot", tot)
	var once sync.Once
	for i := 0; i < 3; i++ {
		once.Do(func() { tot++ })
	}
	zz.ObserveI("once", tot)
	select {
	case <-done:
		zz.ObserveS("sel", "done")
	case <-time.After(time.Second):
		zz.ObserveS("sel", "timeout")
	}
	select {
	case x := <-make(chan int):
		zz.ObserveI("x", x)
	default:
		zz.ObserveS("sel", "default")
	}
	var sm sync.Map
	sm.Store("a", 1)
	sm.Store("b", 2)
	v, ok := sm.Load("a")
	zz.ObserveS("sm", fmt.Sprint(v, ok))
	_, l := sm.LoadOrStore("a", 3)
	zz.ObserveB("l", l)
	c := 0
	sm.Range(func(k, v any) bool { c += v.(int); return true })
	zz.ObserveI("c", c)
	var rw sync.RWMutex
	rw.RLock()
	rw.RLock()
	rw.RUnlock()
	rw.RUnlock()
	rw.Lock()
	rw.Unlock()
	errc := make(chan error)
	go func() {
		defer func() { errc <- fmt.Errorf("r:%v", recover()) }()
		var p *int
		*p = 1
	}()
	zz.ObserveS("err", (<-errc).Error())
}

type str struct{ x int }

func (s str) String() string { return "str!" + strconv.Itoa(s.x) }

func Fmt() {
	p := func(f string, a ...any) { zz.ObserveS("f", fmt.Sprintf(f, a...)) }
	p("%d %5d|%-5d|%05d %x %X %o %b %c %U", 5, 6, 7, 8, 255, 255, 8, 5, 'a', 0x4e16)
	p("%s %q %v %10s|%-10s|%.2s", "a", "b\"", "c", "d", "e", "fgh")
	p("%v %+v %#v %T", rt{A: "z"}.A, struct {
		X int
		Y string
	}{1, "y"}, []int{1, 2}, map[string]int{})
	p("%v %v %v", []string{"a", "b"}, map[string]int{"b": 1, "a": 2}, &struct{ A int }{3})
	p("%f %.2f %g %e %6.1f", 1.5, 2.345, 1e21, 12345.678, 3.14159)
	p("%t %v %p", true, nil, nil)
	p("%s %v %d", str{4}, str{5}, str{6})
	p("%v %s", errors.New("e1"), &myErr{9})
	p("%d%%  %!", 3)
	p("%s %d", 5, "x")
	p("%x % x %X", "hello", []byte("hi"), []byte{1, 171})
	p("%v %v", []any{1, "a", nil, 2.5}, [2]bool{true, false})
	p("%*d %[2]d %[1]d", 5, 42)
	p("%q", []string{"a", "b c"})
	p("%6.2f|%-8v|%+d", 3.14159, "x", 5)
	zz.ObserveS("sp", fmt.Sprint("a", 1, 2, "b", "c", 3.0)+fmt.Sprintln("x", 1))
	var a, b int
	n, err := fmt.Sscanf("12-34", "%d-%d", &a, &b)
	zz.ObserveS("scan", fmt.Sprint(n, err, a, b))
}

type yt struct {
	Name string            `yaml:"name"`
	N    int               `yaml:"n,omitempty"`
	L    []string          `yaml:"l"`
	M    map[string]string `yaml:"m"`
}

func Yaml() {
	src := `openapi: "3.1"
info:
  title: hello   # c
  n: [1, 2.5, true, null, ~]
list:
  - a: 1
    b: |
      multi
      line
  - &x
    c: 'q''s'
  - *x
x-e: {a: b}
`
	var n yaml.Node
	err := yaml.Unmarshal([]byte(src), &n)
	zz.ObserveB("err", err == nil)
	var dump func(n *yaml.Node, d int)
	dump = func(n *yaml.Node, d int) {
		zz.ObserveS("n", fmt.Sprintf("%d %d %s %s %s %d:%d %d %s%s", d, n.Kind, n.Tag, n.Value, n.Anchor, n.Line, n.Column, n.Style, n.HeadComment, n.LineComment))
		for _, c := range n.Content {
			dump(c, d+1)
		}
	}
	dump(&n, 0)
	out, err := yaml.Marshal(&n)
	zz.ObserveS("out", string(out))
	var v yt
	err = yaml.Unmarshal([]byte("name: bob\nn: 4\nl: [a, b]\nm: {x: y}\n"), &v)
	zz.ObserveS("v", fmt.Sprintf("%+v %v", v, err))
	out, err = yaml.Marshal(v)
	zz.ObserveS("out", string(out))
	var m map[string]any
	yaml.Unmarshal([]byte(src), &m)
	zz.ObserveS("m", fmt.Sprint(m))
	err = yaml.Unmarshal([]byte("a: [b\nc: d"), &m)
	zz.ObserveS("e", fmt.Sprint(err))
}

func Sym() {
	s := zz.String("s", 0, 3)
	x := zz.Int("x", -5, 300)
	b := zz.Bool("b")
	if b {
		zz.ObserveS("up", strings.ToUpper(s))
	} else {
		zz.ObserveB("pre", strings.HasPrefix(s, "a") || strings.Contains(s, "%"))
	}
	zz.ObserveI("x", x*3-7)
	if x > 100 && len(s) > 1 {
		zz.ObserveI("c", int(s[1])+x)
	}
	parts := strings.Split(s, "/")
	zz.ObserveI("parts", len(parts))
	m := map[string]int{"a": 1, "ab": 2}
	m[s] = 9
	zz.ObserveI("m", len(m)*10+m["a"])
	n, err := strconv.Atoi(s)
	zz.ObserveB("aerr", err == nil)
	if err == nil {
		zz.ObserveI("atoi", n)
		zz.Assert(n < 1000, "n<1000")
	}
	r := 0
	for range s {
		r++
	}
	zz.ObserveI("runes", r)
}
