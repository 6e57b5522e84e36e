package P06

import (
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
	"github.com/pb33f/libopenapi/index"
	zh "github.com/pb33f/libopenapi/zz_hlib"
	zz "github.com/pb33f/libopenapi/zz_vsym"
)

const (
	none = iota
	optional
	required
	reqItems // required property: array of $ref
	optItems
	allOf
	oneOf
)

var names = []string{"A", "B", "C", "D"}

func build(n int, e [][]int, dangling int) string {
	b := "openapi: 3.1.0\ninfo: {title: t, version: '1'}\npaths: {}\ncomponents:\n  schemas:\n"
	for i := 0; i < n; i++ {
		var props, req, all, one []string
		for j := 0; j < n; j++ {
			r := "{$ref: '#/components/schemas/" + names[j] + "'}"
			p := "p" + names[j]
			switch e[i][j] {
			case optional:
				props = append(props, p+": "+r)
			case required:
				props = append(props, p+": "+r)
				req = append(req, p)
			case reqItems:
				props = append(props, p+": {type: array, items: "+r+"}")
				req = append(req, p)
			case optItems:
				props = append(props, p+": {type: array, items: "+r+"}")
			case allOf:
				all = append(all, r)
			case oneOf:
				one = append(one, r)
			}
		}
		if i == 0 && dangling == 1 {
			props = append(props, "gone: {$ref: '#/components/schemas/Gone'}")
			req = append(req, "gone")
		}
		b += "    " + names[i] + ":\n      description: d\n"
		if len(req) > 0 {
			b += "      required: [" + strings.Join(req, ", ") + "]\n"
		}
		if len(props) > 0 {
			b += "      properties: {" + strings.Join(props, ", ") + "}\n"
		}
		if len(all) > 0 {
			b += "      allOf: [" + strings.Join(all, ", ") + "]\n"
		}
		if len(one) > 0 {
			b += "      oneOf: [" + strings.Join(one, ", ") + "]\n"
		}
	}
	return b
}

// cyclic says whether the graph of the edges accepted by ok has a cycle.
func cyclic(n int, e [][]int, ok func(int) bool) bool {
	r := make([][]bool, n)
	for i := range r {
		r[i] = make([]bool, n)
		for j := range r[i] {
			r[i][j] = ok(e[i][j])
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				r[i][j] = r[i][j] || r[i][k] && r[k][j]
			}
		}
	}
	for i := 0; i < n; i++ {
		if r[i][i] {
			return true
		}
	}
	return false
}

func nameOf(r *index.Reference) int {
	for i, n := range names {
		if strings.HasSuffix(r.FullDefinition, "#/components/schemas/"+n) {
			return i
		}
	}
	return -1
}

func genuine(c *index.CircularReferenceResult, e [][]int) bool {
	j := c.Journey
	if c.LoopPoint == nil || len(j) < 2 {
		return false
	}
	last := nameOf(j[len(j)-1])
	closes := false
	for i := 0; i+1 < len(j); i++ {
		a, b := nameOf(j[i]), nameOf(j[i+1])
		if a < 0 || b < 0 || a >= len(e) || b >= len(e) || e[a][b] == none {
			return false
		}
		closes = closes || a == last && (c.IsPolymorphicResult || i == c.LoopIndex)
	}
	return closes && nameOf(c.LoopPoint) == last
}

func check(n int, e [][]int, dangling int) {
	d, err := libopenapi.NewDocumentWithConfiguration([]byte(build(n, e, dangling)), datamodel.NewDocumentConfiguration())
	zz.Assert(err == nil, "the document parses")
	verify(d, n, e, dangling)
}

func verify(d libopenapi.Document, n int, e [][]int, dangling int) {
	m, err := d.BuildV3Model()
	if dangling == 1 {
		zz.Assert(err != nil, "a dangling reference is reported")
	}
	if m == nil {
		return
	}
	ro := d.GetRolodex()
	all := append(append([]*index.CircularReferenceResult{}, ro.GetRootIndex().GetCircularReferences()...), ro.GetSafeCircularReferences()...)
	isC := cyclic(n, e, func(k int) bool { return k != none })
	isInf := cyclic(n, e, func(k int) bool { return k == required || k == reqItems })
	if isC {
		zz.Cover("cycle")
	}
	if isInf {
		zz.Cover("infinite")
	}
	zz.Assert(isC == (len(all) > 0), "a circular reference is reported iff the references form a cycle")
	inf := false
	for _, c := range all {
		zz.Assert(genuine(c, e), "a reported circular reference is a cycle of the document")
		inf = inf || c.IsInfiniteLoop
	}
	poly := false
	for i := range e {
		for _, k := range e[i] {
			poly = poly || k == allOf || k == oneOf
		}
	}
	zz.Assert(isInf || !inf, "an infinite circular reference is reported only if required references form a cycle")
	if !poly || dangling == 2 {
		zz.Assert(inf || !isInf, "a cycle of required references is reported as infinite")
	} else {
		isInf = inf
	}
	if dangling == 0 {
		zz.Assert((err != nil) == isInf, "the build fails iff a circular reference is infinite")
	}
	if !isInf && dangling == 0 {
		for _, s := range m.Model.Components.Schemas.FromOldest() {
			zz.Assert(s.Schema() != nil && s.Schema().Description == "d", "the schemas of a circular document are readable")
		}
	}
}

// Props: every graph over n schemas with optional and required property references.
func Props() {
	n := zz.Param("n", 3)
	e := make([][]int, n)
	for i := range e {
		e[i] = make([]int, n)
		for j := range e[i] {
			if i == j && zz.Param("diag", 1) == 0 {
				e[i][j] = required * zz.Choice("edge", 2)
			} else {
				e[i][j] = zz.Choice("edge", 3)
			}
		}
	}
	check(n, e, 0)
}

// Masked: a self-requiring schema that is also on a polymorphic cycle (known finding).
func Masked() {
	check(2, [][]int{{reqItems, oneOf}, {allOf, none}}, 2)
}

// Kinds: two schemas, every kind of edge.
func Kinds() {
	e := [][]int{{0, 0}, {0, 0}}
	for i := range e {
		for j := range e[i] {
			e[i][j] = zz.Choice("edge", zz.Param("kinds", 7))
		}
	}
	check(2, e, zz.Choice("dangling", 2))
}

// Slots: the target of every reference is a symbolic name, and so is each entry of the required lists: the document's
// text is fixed and the graph is a property of the symbolic bytes.
func Slots() {
	n, k := zz.Param("n", 3), zz.Param("slots", 1)
	b := "openapi: 3.1.0\ninfo: {title: t, version: '1'}\npaths: {}\ncomponents:\n  schemas:\n"
	var sub []string
	for i := 0; i < n; i++ {
		b += "    " + names[i] + ":\n      description: d\n      required: ["
		for s := 0; s < k; s++ {
			id := string(rune('0'+i)) + string(rune('0'+s))
			b += "'@q" + id + "', "
		}
		b += "]\n      properties:\n"
		for s := 0; s < k; s++ {
			id := string(rune('0'+i)) + string(rune('0'+s))
			b += "        p" + string(rune('0'+s)) + ": {$ref: '#/components/schemas/@t" + id + "'}\n"
		}
	}
	b += "    Z: {description: d, type: string}\n"
	tgt := make([][]string, n)
	req := make([][]string, n)
	for i := 0; i < n; i++ {
		for s := 0; s < k; s++ {
			id := string(rune('0'+i)) + string(rune('0'+s))
			t := zz.StringOf("t", 1, 1, "ABCDEF"[:n]+"Z")
			q := zz.StringOf("q", 1, 1, "px") + string(rune('0'+s))
			tgt[i] = append(tgt[i], t)
			req[i] = append(req[i], q)
			sub = append(sub, "@t"+id, t, "@q"+id, q)
		}
	}
	zz.MapOrder(3 * zz.Choice("reverse", 2))
	d := zh.Doc(b, nil, sub...)
	e := make([][]int, n+1)
	for i := range e {
		e[i] = make([]int, n+1)
	}
	for i := 0; i < n; i++ {
		for s := 0; s < k; s++ {
			j := 0
			for j < n && names[j] != tgt[i][s] {
				j++
			}
			if req[i][s][0] == 'p' {
				e[i][j] = required
			} else if e[i][j] == none {
				e[i][j] = optional
			}
		}
	}
	verify(d, n, e, 0)
}
