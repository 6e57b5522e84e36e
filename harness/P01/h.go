package P01

import (
	"fmt"
	"context"

	"github.com/pb33f/libopenapi/orderedmap"
	zz "github.com/pb33f/libopenapi/zz_vsym"
	"go.yaml.in/yaml/v4"
)

type ent struct{ k, v int }

func same(m *orderedmap.Map[int, int], model []ent) {
	zz.Assert(m.Len() == len(model), "Len equals the number of live keys")
	zz.Assert(orderedmap.Len(m) == len(model), "Len(m) equals the number of live keys")
	zz.Assert(m.IsZero() == (len(model) == 0), "IsZero iff empty")
	i := 0
	for p := m.First(); p != nil; p = p.Next() {
		zz.Assert(i < len(model), "iteration yields no extra pair")
		zz.Assert(p.Key() == model[i].k && *p.KeyPtr() == model[i].k, "iteration keys follow first-insertion order")
		zz.Assert(p.Value() == model[i].v && *p.ValuePtr() == model[i].v, "iteration values are the latest set")
		i++
	}
	zz.Assert(i == len(model), "iteration yields every pair")
	i = 0
	for k, v := range m.FromOldest() {
		zz.Assert(i < len(model) && k == model[i].k && v == model[i].v, "FromOldest yields pairs in insertion order")
		i++
	}
	zz.Assert(i == len(model), "FromOldest yields every pair")
	i = len(model) - 1
	for k, v := range m.FromNewest() {
		zz.Assert(i >= 0 && k == model[i].k && v == model[i].v, "FromNewest yields pairs in reverse order")
		i--
	}
	zz.Assert(i == -1, "FromNewest yields every pair")
	i = 0
	for k := range m.KeysFromOldest() {
		zz.Assert(i < len(model) && k == model[i].k, "KeysFromOldest order")
		i++
	}
	zz.Assert(i == len(model), "KeysFromOldest complete")
	i = len(model) - 1
	for k := range m.KeysFromNewest() {
		zz.Assert(i >= 0 && k == model[i].k, "KeysFromNewest order")
		i--
	}
	zz.Assert(i == -1, "KeysFromNewest complete")
	i = 0
	for v := range m.ValuesFromOldest() {
		zz.Assert(i < len(model) && v == model[i].v, "ValuesFromOldest order")
		i++
	}
	zz.Assert(i == len(model), "ValuesFromOldest complete")
	i = len(model) - 1
	for v := range m.ValuesFromNewest() {
		zz.Assert(i >= 0 && v == model[i].v, "ValuesFromNewest order")
		i--
	}
	zz.Assert(i == -1, "ValuesFromNewest complete")
	// stopping early stops
	for stop := 1; stop <= len(model); stop++ {
		n := 0
		for range m.FromOldest() {
			n++
			if n == stop {
				break
			}
		}
		zz.Assert(n == stop, "FromOldest honours an early stop")
		n = 0
		for range m.FromNewest() {
			n++
			if n == stop {
				break
			}
		}
		zz.Assert(n == stop, "FromNewest honours an early stop")
	}
	cp := orderedmap.From(m.FromOldest())
	i = 0
	for p := orderedmap.First(cp); p != nil; p = p.Next() {
		zz.Assert(i < len(model) && p.Key() == model[i].k && p.Value() == model[i].v, "From(FromOldest) copies the map in order")
		i++
	}
	zz.Assert(i == len(model), "From copies every pair")
}

func find(model []ent, k int) int {
	for i := range model {
		if model[i].k == k {
			return i
		}
	}
	return -1
}

func History() {
	ops := zz.Param("ops", 5)
	nk := zz.Param("keys", 3)
	m := orderedmap.New[int, int]()
	var model []ent
	for s := 0; s < ops; s++ {
		op := zz.Choice("op", 3)
		k := zz.Int("key", 0, nk-1)
		switch op {
		case 0:
			v := zz.Int("val", 0, 255)
			old, had := m.Set(k, v)
			i := find(model, k)
			zz.Assert(had == (i >= 0), "Set reports whether the key was present")
			if i >= 0 {
				zz.Cover("set-existing")
				zz.Assert(old == model[i].v, "Set returns the previous value")
				model[i].v = v
			} else {
				zz.Cover("set-new")
				model = append(model, ent{k, v})
			}
		case 1:
			old, had := m.Delete(k)
			i := find(model, k)
			zz.Assert(had == (i >= 0), "Delete reports whether the key was present")
			if i >= 0 {
				zz.Cover("delete-hit")
				zz.Assert(old == model[i].v, "Delete returns the removed value")
				model = append(model[:i:i], model[i+1:]...)
			} else {
				zz.Cover("delete-miss")
			}
		case 2:
			v, ok := m.Get(k)
			z := m.GetOrZero(k)
			i := find(model, k)
			zz.Assert(ok == (i >= 0), "Get finds exactly the live keys")
			if i >= 0 {
				zz.Cover("get-hit")
				zz.Assert(v == model[i].v && z == model[i].v, "Get and GetOrZero return the latest value")
			} else {
				zz.Assert(z == 0, "GetOrZero returns zero for a missing key")
			}
			continue // nothing changed
		}
	}
	same(m, model)
}

func Strings() {
	n := zz.Param("n", 3)
	l := zz.Param("len", 1)
	var keys []string
	var pairs []orderedmap.Pair[string, int]
	var uniq []string
	val := map[int]int{}
	for i := 0; i < n; i++ {
		k := zz.String("k", 0, l)
		keys = append(keys, k)
		pairs = append(pairs, orderedmap.NewPair(k, i+1))
		at := -1
		for j := range uniq {
			if uniq[j] == k {
				at = j
			}
		}
		if at < 0 {
			zz.Cover("distinct")
			uniq = append(uniq, k)
			at = len(uniq) - 1
		} else {
			zz.Cover("dup")
		}
		val[at] = i + 1
	}
	m := orderedmap.FromPairs(pairs...)
	zz.Assert(m.Len() == len(uniq), "FromPairs keeps one entry per distinct key")
	i := 0
	for k, v := range m.FromOldest() {
		zz.Assert(i < len(uniq) && k == uniq[i] && v == val[i], "FromPairs keeps first-insertion order and the latest value")
		i++
	}
	c := 0
	for p := range orderedmap.Iterate(context.Background(), m) {
		zz.Assert(c < len(uniq) && p.Key() == uniq[c] && p.Value() == val[c], "Iterate yields pairs in order")
		c++
	}
	zz.Assert(c == len(uniq), "Iterate yields every pair and ends")
	s := orderedmap.SortAlpha(m)
	zz.Assert(s.Len() == len(uniq), "SortAlpha keeps every key")
	prev := ""
	j := 0
	for k, v := range s.FromOldest() {
		zz.Assert(j == 0 || prev < k, "SortAlpha orders the keys alphabetically")
		zz.Assert(v == m.GetOrZero(k), "SortAlpha keeps each value with its key")
		prev = k
		j++
	}
	zz.Assert(j == len(uniq), "SortAlpha yields every key")
	i = 0
	for k := range m.FromOldest() {
		zz.Assert(k == uniq[i], "SortAlpha leaves its argument's order alone")
		i++
	}
	gm := map[string]int{}
	for i := range uniq {
		gm[uniq[i]] = val[i]
	}
	om := orderedmap.ToOrderedMap(gm)
	zz.Assert(om.Len() == len(uniq), "ToOrderedMap keeps every key")
	j = 0
	for k, v := range om.FromOldest() {
		zz.Assert(j == 0 || prev < k, "ToOrderedMap orders the keys alphabetically")
		zz.Assert(v == gm[k], "ToOrderedMap keeps each value with its key")
		prev = k
		j++
	}
	zz.Assert(orderedmap.Cast[string, int](any(m)) == m, "Cast returns the same map")
	zz.Assert(orderedmap.Cast[int, int](any(m)) == nil, "Cast to another type is nil")
	// cancelling stops Iterate
	ctx, cancel := context.WithCancel(context.Background())
	ch := orderedmap.Iterate(ctx, m)
	if len(uniq) > 1 {
		p := <-ch
		zz.Assert(p.Key() == uniq[0], "Iterate starts at the oldest pair")
		cancel()
		got := 0
		for range ch {
			got++
		}
		zz.Assert(got < len(uniq), "Iterate closes its channel after cancellation")
	}
	cancel()
}

func Nil() {
	var m *orderedmap.Map[string, int]
	zz.Assert(orderedmap.Len(m) == 0 && m.IsZero() && m.First() == nil && orderedmap.First(m) == nil, "a nil map is empty")
	for range m.FromOldest() {
		zz.Assert(false, "nil map yields nothing")
	}
	for range m.FromNewest() {
		zz.Assert(false, "nil map yields nothing")
	}
	for range m.KeysFromOldest() {
		zz.Assert(false, "nil map yields nothing")
	}
	for range m.KeysFromNewest() {
		zz.Assert(false, "nil map yields nothing")
	}
	for range m.ValuesFromOldest() {
		zz.Assert(false, "nil map yields nothing")
	}
	for range m.ValuesFromNewest() {
		zz.Assert(false, "nil map yields nothing")
	}
	for range orderedmap.Iterate(context.Background(), m) {
		zz.Assert(false, "nil map yields nothing")
	}
	zz.Assert(orderedmap.SortAlpha(m) == nil || orderedmap.SortAlpha(m).Len() == 0, "SortAlpha of nil is empty")
	v, err := m.MarshalYAML()
	zz.Assert(v == nil && err == nil, "MarshalYAML of nil is nil")
	zz.Assert(orderedmap.Cast[string, int](nil) == nil, "Cast of nil is nil")
	e := orderedmap.New[string, int]()
	zz.Assert(e.First() == nil && e.Len() == 0 && e.GetOrZero("x") == 0, "an empty map is empty")
}

func Marshal() {
	n := zz.Param("n", 2)
	m := orderedmap.New[string, *yaml.Node]()
	var keys, vals []string
	var nodes []*yaml.Node
	for i := 0; i < n; i++ {
		k := zz.StringOf("k", 1, 1, "abcdefgh")
		for j := range keys {
			zz.Assume(keys[j] != k)
		}
		v := zz.StringOf("v", 1, 2, "xyz")
		nd := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: v, Line: 7, Style: yaml.DoubleQuotedStyle, LineComment: "c"}
		m.Set(k, nd)
		keys = append(keys, k)
		vals = append(vals, v)
		nodes = append(nodes, nd)
	}
	out, err := m.MarshalYAML()
	zz.Assert(err == nil, "MarshalYAML succeeds")
	nd, ok := out.(*yaml.Node)
	zz.Assert(ok && nd.Kind == yaml.MappingNode && len(nd.Content) == 2*n, "MarshalYAML yields one pair per entry")
	for i := 0; i < n; i++ {
		zz.Assert(nd.Content[2*i].Value == keys[i], "MarshalYAML keeps key order")
		zz.Assert(nd.Content[2*i+1].Value == vals[i], "MarshalYAML keeps values")
		zz.Assert(nodes[i].Value == vals[i] && nodes[i].Line == 7 && nodes[i].LineComment == "c" && nodes[i].Style == yaml.DoubleQuotedStyle, "MarshalYAML leaves stored nodes alone")
		nd.Content[2*i+1].Value = "changed"
		zz.Assert(nodes[i].Value == vals[i], "marshalled nodes do not alias the stored ones")
	}
}

// Mixed: keys of different types whose texts may be equal stay different keys.
func Mixed() {
	n := zz.Param("n", 3)
	m := orderedmap.New[any, int]()
	var uniq []any
	var vals []int
	for i := 0; i < n; i++ {
		var k any
		switch zz.Choice("kind", 4) {
		case 0:
			k = 10 + zz.Choice("int", 2)
		case 1:
			k = []string{"10", "11"}[zz.Choice("str", 2)]
		case 2:
			k = zz.Choice("bool", 2) == 1
		case 3:
			k = []string{"true", "false"}[zz.Choice("bstr", 2)]
		}
		at := -1
		for j := range uniq {
			if uniq[j] == k {
				at = j
			}
		}
		if at < 0 {
			uniq, vals = append(uniq, k), append(vals, i)
		} else {
			vals[at] = i
		}
		m.Set(k, i)
	}
	zz.Assert(m.Len() == len(uniq), "keys of different types are different keys")
	s := orderedmap.SortAlpha(m)
	zz.Assert(s.Len() == len(uniq), "SortAlpha keeps keys whose texts are equal")
	for i := range uniq {
		zz.Assert(m.GetOrZero(uniq[i]) == vals[i] && s.GetOrZero(uniq[i]) == vals[i], "each key keeps its value")
	}
	if s.Len() < len(uniq) {
		return
	}
	prev := ""
	for k := range s.KeysFromOldest() {
		t := fmt.Sprint(k)
		zz.Assert(prev <= t, "SortAlpha orders the keys by their text")
		if prev == t {
			zz.Cover("equal-text")
		}
		prev = t
	}
	gm := map[any]int{}
	for i := range uniq {
		gm[uniq[i]] = vals[i]
	}
	o := orderedmap.ToOrderedMap(gm)
	zz.Assert(o.Len() == len(uniq), "ToOrderedMap keeps keys whose texts are equal")
	for i := range uniq {
		zz.Assert(o.GetOrZero(uniq[i]) == vals[i], "ToOrderedMap keeps each value with its key")
	}
}
