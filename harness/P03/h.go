package P03

import (
	"strconv"

	"github.com/pb33f/libopenapi/arazzo/expression"
	zz "github.com/pb33f/libopenapi/zz_vsym"
	"go.yaml.in/yaml/v4"
)

type ref struct {
	ok                       bool
	typ                      expression.ExpressionType
	name, tail, prop, ptr    string
}

func tchar(c byte) bool {
	switch {
	case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9':
		return true
	}
	switch c {
	case '!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '|', '~':
		return true
	}
	return false
}

func cut(s, pre string) (string, bool) {
	if len(s) < len(pre) || s[:len(pre)] != pre {
		return "", false
	}
	return s[len(pre):], true
}

// dot splits at the first dot; reports whether there is one.
func dot(s string) (a, b string, found bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			return s[:i], s[i+1:], true
		}
	}
	return s, "", false
}

// grammar is the runtime expression grammar of the Arazzo specification.
func grammar(s string) ref {
	switch s {
	case "$url":
		return ref{ok: true, typ: expression.URL}
	case "$method":
		return ref{ok: true, typ: expression.Method}
	case "$statusCode":
		return ref{ok: true, typ: expression.StatusCode}
	}
	for i, p := range []string{"$request.", "$response."} {
		r, ok := cut(s, p)
		if !ok {
			continue
		}
		off := expression.ExpressionType(i) * (expression.ResponseHeader - expression.RequestHeader)
		if h, ok := cut(r, "header."); ok {
			for j := 0; j < len(h); j++ {
				if !tchar(h[j]) {
					return ref{}
				}
			}
			return ref{ok: h != "", typ: expression.RequestHeader + off, prop: h}
		}
		if h, ok := cut(r, "query."); ok {
			return ref{ok: h != "", typ: expression.RequestQuery + off, prop: h}
		}
		if h, ok := cut(r, "path."); ok {
			return ref{ok: h != "", typ: expression.RequestPath + off, prop: h}
		}
		if r == "body" {
			return ref{ok: true, typ: expression.RequestBody + off}
		}
		if h, ok := cut(r, "body#"); ok {
			return ref{ok: true, typ: expression.RequestBody + off, ptr: h}
		}
		return ref{}
	}
	if r, ok := cut(s, "$inputs."); ok {
		return ref{ok: r != "", typ: expression.Inputs, name: r}
	}
	if r, ok := cut(s, "$outputs."); ok {
		return ref{ok: r != "", typ: expression.Outputs, name: r}
	}
	for _, x := range []struct {
		p string
		t expression.ExpressionType
	}{{"$steps.", expression.Steps}, {"$workflows.", expression.Workflows}, {"$sourceDescriptions.", expression.SourceDescriptions}} {
		if r, ok := cut(s, x.p); ok {
			n, t, _ := dot(r)
			return ref{ok: n != "", typ: x.t, name: n, tail: t}
		}
	}
	if r, ok := cut(s, "$components."); ok {
		if n, ok := cut(r, "parameters."); ok {
			return ref{ok: n != "", typ: expression.ComponentParameters, name: n}
		}
		n, t, _ := dot(r)
		return ref{ok: r != "", typ: expression.Components, name: n, tail: t}
	}
	return ref{}
}

var prefixes = []string{"", "$", "$url", "$method", "$statusCode", "$request.", "$request.header.", "$request.query.", "$request.path.", "$request.body", "$request.body#",
	"$response.", "$response.header.", "$response.query.", "$response.path.", "$response.body", "$response.body#", "$inputs.", "$outputs.", "$steps.", "$workflows.",
	"$sourceDescriptions.", "$components.", "$components.parameters.", "$ur", "$statusCod", "$step", "$request", "$component", "$input", "$sourceDescriptions", "$components.inputs.", "$steps.a."}

func Parse() {
	zz.LooseQuote(true)
	p := prefixes[zz.Choice("prefix", len(prefixes))]
	s := p + zz.String("suffix", 0, zz.Param("len", 3))
	e, err := expression.Parse(s)
	want := grammar(s)
	zz.Assert((expression.Validate(s) == nil) == (err == nil), "Validate agrees with Parse")
	if p == "$components." && len(s) > len(p) && s[len(p)] == '.' {
		return // an empty component type: the grammar is silent about it
	}
	zz.Assert(want.ok == (err == nil), "Parse accepts exactly the grammar")
	if err != nil {
		zz.Cover("reject")
		zz.Assert(e == (expression.Expression{}), "a rejected expression is zero")
		return
	}
	zz.Cover("ok")
	if want.prop != "" {
		zz.Cover("header")
	}
	if want.tail != "" {
		zz.Cover("tail")
	}
	zz.Assert(e.Type == want.typ, "the expression kind is the one its prefix names")
	zz.Assert(e.Raw == s, "Raw is the input")
	zz.Assert(e.Name == want.name, "Name is the segment after the prefix")
	zz.Assert(e.Tail == want.tail, "Tail is what follows the name")
	zz.Assert(e.Property == want.prop, "Property is the header, query or path name")
	zz.Assert(e.JSONPointer == want.ptr, "JSONPointer is what follows '#'")
	zz.ObserveI("type", int(e.Type))
	zz.ObserveS("name", e.Name)
	zz.ObserveS("tail", e.Tail)
}

func Embedded() {
	zz.LooseQuote(true)
	n := zz.Param("len", 4)
	var s string
	switch zz.Choice("shape", 4) {
	case 0:
		s = zz.String("s", 0, n)
	case 1:
		s = zz.String("a", 0, 2) + "{$url}" + zz.String("b", 0, 2)
	case 2:
		s = "{$inputs." + zz.String("a", 0, 2) + "}" + zz.String("b", 0, 1) + "{$method}"
	case 3:
		s = zz.String("a", 0, 1) + "{$steps.a" + zz.String("b", 0, 2) + "}"
	}
	toks, err := expression.ParseEmbedded(s)
	// reference
	var lits []string
	var exprs []string
	bad := false
	rest := s
	for rest != "" {
		i := -1
		for j := 0; j+1 < len(rest); j++ {
			if rest[j] == '{' && rest[j+1] == '$' {
				i = j
				break
			}
		}
		if i < 0 {
			lits = append(lits, rest)
			exprs = append(exprs, "")
			break
		}
		if i > 0 {
			lits = append(lits, rest[:i])
			exprs = append(exprs, "")
		}
		c := -1
		for j := i + 1; j < len(rest); j++ {
			if rest[j] == '}' {
				c = j
				break
			}
		}
		if c < 0 || !grammar(rest[i+1:c]).ok {
			bad = true
			break
		}
		lits = append(lits, "")
		exprs = append(exprs, rest[i+1:c])
		rest = rest[c+1:]
	}
	zz.Assert(bad == (err != nil), "an embedded string is rejected iff a brace is unclosed or an expression is invalid")
	if bad {
		zz.Cover("reject")
		return
	}
	zz.Assert(len(toks) == len(lits), "the tokens are the literals and expressions in order")
	for i, t := range toks {
		zz.Assert(t.IsExpression == (exprs[i] != ""), "token kinds alternate as in the input")
		if t.IsExpression {
			zz.Cover("expr")
			zz.Assert(t.Expression.Raw == exprs[i], "an expression token holds the text between the braces")
			g := grammar(exprs[i])
			zz.Assert(t.Expression.Type == g.typ && t.Expression.Name == g.name && t.Expression.Tail == g.tail, "an expression token is parsed like a bare expression")
		} else {
			zz.Cover("literal")
			zz.Assert(t.Literal == lits[i], "a literal token holds the text between expressions")
		}
	}
}

func Eval() {
	zz.LooseQuote(true)
	l := zz.Param("len", 2)
	const ab = "ab.-X"
	k := zz.StringOf("key", 1, l, ab) // the key present in the context
	q := zz.StringOf("q", 1, l, ab)   // the name asked for
	m := map[string]any{k: "V"}
	hs := map[string]string{k: "H"}
	ctx := &expression.Context{URL: "U", Method: "M", StatusCode: 418, RequestHeaders: hs,
		RequestQuery: map[string]string{k: "Q"}, RequestPath: map[string]string{k: "P"}, ResponseHeaders: map[string]string{k: "RH"},
		Inputs: map[string]any{k: "I"}, Outputs: map[string]any{k: "O"},
		Steps:       map[string]*expression.StepContext{k: {Inputs: map[string]any{k: "SI"}, Outputs: map[string]any{k: "SO"}}},
		Workflows:   map[string]*expression.WorkflowContext{k: {Inputs: map[string]any{k: "WI"}, Outputs: map[string]any{k: "WO"}}},
		SourceDescs: map[string]*expression.SourceDescContext{k: {URL: "SU"}},
		Components: &expression.ComponentsContext{Parameters: map[string]any{k: "CP"}, SuccessActions: map[string]any{k: "CS"}, FailureActions: map[string]any{k: "CF"},
			Inputs: map[string]any{k: map[string]any{k: "CI"}}},
	}
	hit := q == k
	n, _, dotted := dot(q)
	nhit := n == k && !dotted
	want := func(s string, ok bool, val string) {
		v, err := expression.EvaluateString(s, ctx)
		if !ok {
			zz.Cover("missing")
			zz.Assert(err != nil, "a name absent from the context is an error: "+val)
			return
		}
		zz.Cover("found")
		zz.Assert(err == nil, "a name present in the context is found: "+val)
		str, isS := v.(string)
		zz.Assert(isS && str == val, "the value of the addressed entry is returned: "+val)
	}
	switch zz.Choice("kind", 17) {
	case 0:
		want("$url", true, "U")
		want("$method", true, "M")
		v, err := expression.EvaluateString("$statusCode", ctx)
		zz.Assert(err == nil && v == any(418), "$statusCode is the status code")
	case 1:
		want("$request.header."+q, hit, "H")
	case 2:
		want("$request.query."+q, hit, "Q")
	case 3:
		want("$request.path."+q, hit, "P")
	case 4:
		want("$response.header."+q, hit, "RH")
	case 5:
		want("$inputs."+q, hit, "I")
	case 6:
		want("$outputs."+q, hit, "O")
	case 7:
		zz.Assume(n != "")
		if !dotted {
			want("$steps."+q+".outputs."+k, nhit, "SO")
		}
	case 8:
		zz.Assume(n != "")
		if !dotted {
			want("$steps."+q+".inputs."+k, nhit, "SI")
		}
	case 9:
		zz.Assume(n != "")
		if !dotted {
			want("$workflows."+q+".outputs."+k, nhit, "WO")
		}
	case 10:
		zz.Assume(n != "")
		if !dotted {
			want("$workflows."+q+".inputs."+k, nhit, "WI")
		}
	case 11:
		zz.Assume(n != "")
		if !dotted {
			want("$sourceDescriptions."+q+".url", nhit, "SU")
			_, err := expression.EvaluateString("$sourceDescriptions."+q+".other", ctx)
			zz.Assert(err != nil, "an unknown source description property is an error")
		}
	case 12:
		want("$components.parameters."+q, hit, "CP")
	case 13:
		if !dotted {
			want("$components.successActions."+q, nhit, "CS")
		}
	case 14:
		if !dotted {
			want("$components.failureActions."+q, nhit, "CF")
		}
	case 15:
		_, _, kd := dot(k)
		if !dotted && !kd {
			zz.Cover("deep")
			want("$components.inputs."+k+"."+q, hit, "CI")
		}
	case 16:
		// outputs and inputs of a step are kept apart; the last segment is the asked one
		_, _, kd := dot(k)
		zz.Assume(!kd)
		want("$steps."+k+".outputs."+q, hit, "SO")
		want("$workflows."+k+".inputs."+q, hit, "WI")
		v, err := expression.EvaluateString("$steps."+k+".outputs", ctx)
		mm, ok := v.(map[string]any)
		zz.Assert(err == nil && ok && mm[k] == any("SO"), "all outputs of a step")
	}
	_ = m
	_, err := expression.EvaluateString("$url", nil)
	zz.Assert(err != nil, "a nil context is an error")
	empty := &expression.Context{}
	for _, s := range []string{"$request.header.a", "$request.query.a", "$request.path.a", "$request.body", "$request.body#/a", "$response.header.a", "$response.body", "$inputs.a", "$outputs.a", "$steps.a", "$workflows.a.outputs.b", "$sourceDescriptions.a.url", "$components.parameters.a", "$components.inputs.a", "$response.query.a", "$response.path.a"} {
		v, err := expression.EvaluateString(s, empty)
		zz.Assert(err != nil && v == nil, "nothing is found in an empty context: "+s)
	}
}

func esc(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '~':
			out += "~0"
		case '/':
			out += "~1"
		default:
			out += s[i : i+1]
		}
	}
	return out
}

func scalar(v string) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: v} }

func Pointer() {
	zz.LooseQuote(true)
	l := zz.Param("len", 2)
	const ab = "a~/01"
	k1 := zz.StringOf("k1", 1, l, ab)
	k2 := zz.StringOf("k2", 1, l, ab)
	zz.Assume(k1 != k2)
	n := zz.Choice("items", 3)
	seq := &yaml.Node{Kind: yaml.SequenceNode}
	for i := 0; i < n; i++ {
		seq.Content = append(seq.Content, scalar("s"+strconv.Itoa(i)))
	}
	inner := &yaml.Node{Kind: yaml.MappingNode, Content: []*yaml.Node{scalar(k1), scalar("in1"), scalar(k2), seq}}
	root := &yaml.Node{Kind: yaml.MappingNode, Content: []*yaml.Node{scalar(k1), inner, scalar(k2), {Kind: yaml.ScalarNode, Tag: "!!int", Value: "42"}}}
	body := root
	if zz.Choice("doc", 2) == 1 {
		body = &yaml.Node{Kind: yaml.DocumentNode, Content: []*yaml.Node{root}}
	}
	ctx := &expression.Context{}
	pre := "$response.body#"
	if zz.Choice("req", 2) == 1 {
		pre = "$request.body#"
		ctx.RequestBody = body
	} else {
		ctx.ResponseBody = body
	}
	for i := 0; i < len(k1); i++ {
		if k1[i] == '~' || k1[i] == '/' {
			zz.Cover("escaped")
			break
		}
	}
	v, err := expression.EvaluateString(pre+"/"+esc(k2), ctx)
	zz.Assert(err == nil && v == any(int64(42)), "a one-step pointer resolves to its value")
	v, err = expression.EvaluateString(pre+"/"+esc(k1)+"/"+esc(k1), ctx)
	zz.Assert(err == nil && v == any("in1"), "a two-step pointer resolves to its value")
	v, err = expression.EvaluateString(pre+"/"+esc(k1)+"/"+esc(k2), ctx)
	zz.Assert(err == nil && v == any(seq), "a pointer to a sequence resolves to the node")
	for i := 0; i < 3; i++ {
		v, err = expression.EvaluateString(pre+"/"+esc(k1)+"/"+esc(k2)+"/"+strconv.Itoa(i), ctx)
		if i < n {
			zz.Cover("seq")
			zz.Assert(err == nil && v == any("s"+strconv.Itoa(i)), "a pointer into a sequence resolves to the item")
		} else {
			zz.Assert(err != nil, "an index past the end is an error")
		}
	}
	k3 := zz.StringOf("k3", 1, l, ab)
	if k3 != k1 && k3 != k2 {
		zz.Cover("miss")
		_, err = expression.EvaluateString(pre+"/"+esc(k3), ctx)
		zz.Assert(err != nil, "a pointer to a missing key is an error")
		_, err = expression.EvaluateString(pre+"/"+esc(k1)+"/"+esc(k3), ctx)
		zz.Assert(err != nil, "a pointer to a missing key is an error")
	}
	_, err = expression.EvaluateString(pre+"/"+esc(k2)+"/"+esc(k1), ctx)
	zz.Assert(err != nil, "a pointer through a scalar is an error")
}
