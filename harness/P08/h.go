package P08

import (
	"reflect"
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/what-changed/model"
	zh "github.com/pb33f/libopenapi/zz_hlib"
	zz "github.com/pb33f/libopenapi/zz_vsym"
	"go.yaml.in/yaml/v4"
)

var templates = map[int]string{31: zh.Rich31, 32: zh.Rich32, 30: zh.Rich30, 2: zh.RichV2}

var ruleType = reflect.TypeOf(&model.BreakingChangeRule{})

func rule(a, m, r bool) *model.BreakingChangeRule {
	return &model.BreakingChangeRule{Added: &a, Modified: &m, Removed: &r}
}

func name(f reflect.StructField) string { return strings.Split(f.Tag.Get("json"), ",")[0] }

// key names a rule: "component.property", or "component" for the rules without a property.
func key(comp, prop string) string {
	if prop == "" {
		return comp
	}
	return comp + "." + prop
}

// config gives every rule the same value and returns where each of them is kept.
func config(other *model.BreakingChangeRule) (*model.BreakingRulesConfig, map[string]reflect.Value) {
	c, at := &model.BreakingRulesConfig{}, map[string]reflect.Value{}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		if f.Type == ruleType {
			v.Field(i).Set(reflect.ValueOf(other))
			at[name(f)] = v.Field(i)
			continue
		}
		p := reflect.New(f.Type.Elem())
		for j := 0; j < p.Elem().NumField(); j++ {
			if g := p.Elem().Type().Field(j); g.Type == ruleType {
				p.Elem().Field(j).Set(reflect.ValueOf(other))
				at[key(name(f), name(g))] = p.Elem().Field(j)
			}
		}
		v.Field(i).Set(p)
	}
	return c, at
}

func value(name, kind string) (string, string) {
	switch kind {
	case "i":
		return "3", "44"
	case "b":
		return "true", "false"
	}
	return "zq" + zz.StringOf(name, 1, 1, "abyzABYZ0189_"), "zr"
}

// Modified: one value of the document differs; the change is as breaking as the rule for its component and property says.
func Modified() {
	text := templates[zz.Param("t", 31)]
	a, m, r, o := zz.Bool("added"), zz.Bool("modified"), zz.Bool("removed"), zz.Bool("others")
	c, at := config(rule(o, o, o))
	dl, dr := zh.TemplateDoc(text), zh.TemplateDoc(text)
	var ks []int
	sites := zh.SitesOf(text)
	for i, s := range sites {
		// (examples follow the rule of the object they belong to, and Swagger examples never break)
		if !s.Gap && s.Comp != "ext" && s.Comp != "example" && key(s.Comp, s.Prop) != "response.examples" && at[key(s.Comp, s.Prop)].IsValid() {
			ks = append(ks, i)
		}
	}
	k := ks[zz.Choice("site", len(ks))]
	s := sites[k]
	at[key(s.Comp, s.Prop)].Set(reflect.ValueOf(rule(a, m, r)))
	model.SetActiveBreakingRulesConfig(c)
	l, n := value("l", s.Kind)
	fill := func(d libopenapi.Document, v string) libopenapi.Document {
		s := zh.FillDoc(d, k, v, true)
		zh.Alone(d.GetSpecInfo().RootNode, s.Node)
		return d
	}
	ch, _ := libopenapi.CompareDocuments(fill(dl, l), fill(dr, n))
	if ch == nil {
		zz.Assert(false, "a changed value is reported ("+s.Path+")")
		return
	}
	judge(ch, m, m, m, key(s.Comp, s.Prop)+" at "+s.Path)
}

// judge compares every change with the rule it belongs to
func judge(ch *model.DocumentChanges, a, m, r bool, what string) {
	n := 0
	for _, x := range ch.GetAllChanges() {
		want := m
		switch x.ChangeType {
		case model.PropertyAdded, model.ObjectAdded:
			want = a
		case model.PropertyRemoved, model.ObjectRemoved:
			want = r
		}
		zz.Assert(zz.Iff(x.Breaking, want), "a change is breaking exactly if the rule for it says so: "+what)
		if x.Breaking {
			n++
		}
	}
	zz.Assert(ch.TotalBreakingChanges() == n, "every breaking change is counted once: "+what)
}

// ruleOf names the rule for an entry of the document
func ruleOf(o zh.Owner, k string) string {
	if o.Prop != "" { // an entry of a list or map
		switch key(o.Comp, o.Prop) {
		case "document.servers", "document.tags", "document.security":
			return o.Prop
		case "securityScheme.scopes": // Swagger
			return "oauthFlow.scopes"
		}
		return key(o.Comp, o.Prop)
	}
	switch o.Comp {
	case "paths":
		return "paths.path"
	case "responses":
		if k == "default" {
			return "responses.default"
		}
		return "responses.codes"
	case "callback":
		return "callback.expressions"
	case "document":
		return k
	}
	return key(o.Comp, k)
}

// identity says that the entry identifies the object it is in (without it the object is another one), or that the rule
// is not the only thing that counts (a required parameter)
func identity(root *yaml.Node, o zh.Owner, rule string, e zh.Edge) bool {
	switch rule {
	case "server.url", "tag.name", "parameter.name", "components", "schema.$ref":
		return true
	case "pathItem.parameters", "operation.parameters":
		return strings.Contains(text(e.Parent.Content[e.I+e.N-1]), "required")
	case "schema.type", "schema.default", "schema.examples":
		return o.Prop != "" // (a shorter list is a modification)
	}
	return o.Comp == "securityRequirement" || o.Comp == "example"
}

// gap says that the part is known not to be reported (the findings of P07), or an empty map
func gap(p string) bool {
	for _, g := range []string{"/$defs", "/deviceAuthorization", "/clientCredentials/scopes!", "/o/flows/implicit/scopes!"} {
		if strings.Contains(p+"!", g) {
			return true
		}
	}
	return false
}

func text(n *yaml.Node) string {
	s := n.Value
	for _, c := range n.Content {
		s += " " + text(c)
	}
	return s
}

// Parts: one part of the document is missing from one side; the changes are as breaking as the rule for it says.
func Parts() {
	doc := templates[zz.Param("t", 31)]
	a, m, r, oth := zz.Bool("added"), zz.Bool("modified"), zz.Bool("removed"), zz.Bool("others")
	c, at := config(rule(oth, oth, oth))
	dl, dr := zh.TemplateDoc(doc), zh.TemplateDoc(doc)
	d := zh.SiteDoc(doc, -1, "")
	root := d.GetSpecInfo().RootNode
	own := zh.Owners(root)
	es := zh.Edges(root)
	var ks []int
	var rules []string
	for i, e := range es {
		k := e.Parent.Content[e.I].Value
		o, ok := own[e.Parent]
		if i == 0 || !ok || o.Comp == "" || strings.HasPrefix(k, "x-") {
			continue
		}
		rl := ruleOf(o, k)
		if !at[rl].IsValid() || identity(root, o, rl, e) || gap(e.Path) {
			continue
		}
		ks, rules = append(ks, i), append(rules, rl)
	}
	i := zz.Choice("part", len(ks))
	k, rl := ks[i], rules[i]
	p := es[k].Path
	if zz.Param("show", 0) == 1 {
		zz.ObserveS("rule", rl+" "+p)
	}
	at[rl].Set(reflect.ValueOf(rule(a, m, r)))
	model.SetActiveBreakingRulesConfig(c)
	ready := func(d libopenapi.Document, cut bool) libopenapi.Document {
		root := d.GetSpecInfo().RootNode
		zh.Sites(root, -1, "")
		e := zh.Edges(root)[k]
		if zz.Param("whole", 0) == 0 {
			zh.Prune(root, e.Parent)
		}
		if cut {
			for i, c := range e.Parent.Content {
				if c == e.Node {
					e.I = i
				}
			}
			e.Cut()
		}
		return d
	}
	add := zz.Bool("add")
	ch, _ := libopenapi.CompareDocuments(ready(dl, add), ready(dr, !add))
	if ch == nil {
		zz.Assert(false, "a missing part is reported: "+rl+" at "+p)
		return
	}
	for _, x := range ch.GetAllChanges() {
		if strings.HasPrefix(x.Property, "x-") { // (vendor extensions have no rule)
			return
		}
	}
	judge(ch, a, m, r, rl+" at "+p)
}

var kinds = []string{model.ChangeTypeAdded, model.ChangeTypeModified, model.ChangeTypeRemoved}

func flag(name string, kind, one int) *bool {
	if (one < 0 || one == kind) && !zz.Bool(name+" given") {
		return nil
	}
	b := zz.Bool(name)
	return &b
}

func said(p *bool, otherwise bool) bool {
	if p == nil {
		return otherwise
	}
	return *p
}

// Merge: rules merged over other rules replace those that they give and leave the rest alone.
func Merge() {
	o := zz.Bool("others")
	base, at := config(rule(o, o, o))
	over := &model.BreakingRulesConfig{}
	var all []string
	for k := range at {
		all = append(all, k)
	}
	zh.Sort(all)
	k := all[zz.Choice("rule", len(all))]
	comp, prop := k, ""
	if i := strings.IndexByte(k, '.'); i > 0 {
		comp, prop = k[:i], k[i+1:]
	}
	one := -1
	if zz.Param("all", 0) == 0 {
		one = zz.Choice("kind", 3)
	}
	b := &model.BreakingChangeRule{Added: flag("base added", 0, one), Modified: flag("base modified", 1, one), Removed: flag("base removed", 2, one)}
	n := &model.BreakingChangeRule{Added: flag("added", 0, one), Modified: flag("modified", 1, one), Removed: flag("removed", 2, one)}
	at[k].Set(reflect.ValueOf(b))
	set(over, comp, prop, n)
	asked := zz.Bool("asked before")
	if asked {
		base.IsBreaking(comp, prop, kinds[0])
	}
	base.Merge(over)
	want := []bool{said(n.Added, said(b.Added, false)), said(n.Modified, said(b.Modified, false)), said(n.Removed, said(b.Removed, false))}
	for i, kind := range kinds {
		zz.Assert(zz.Iff(base.IsBreaking(comp, prop, kind), want[i]), "a merged rule is the given one, or else the old one: "+k)
	}
	for _, x := range []string{"info.title", "schema.type", "tags"} {
		if x == k {
			continue
		}
		i := strings.IndexByte(x+".", '.')
		for _, kind := range kinds {
			zz.Assert(zz.Iff(base.IsBreaking(x[:i], strings.TrimPrefix(x[i:], "."), kind), o), "merging a rule leaves the others alone: "+k)
		}
	}
	zz.Assert(!base.IsBreaking(comp, prop, "other"), "an unknown kind of change is not breaking")
	zz.Assert(!base.IsBreaking(comp, prop+"q", kinds[2]), "a property without a rule is not breaking")
}

func set(c *model.BreakingRulesConfig, comp, prop string, r *model.BreakingChangeRule) {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() || name(f) != comp {
			continue
		}
		if prop == "" && f.Type == ruleType {
			v.Field(i).Set(reflect.ValueOf(r))
		}
		if prop == "" || f.Type == ruleType {
			continue
		}
		p := reflect.New(f.Type.Elem())
		for j := 0; j < p.Elem().NumField(); j++ {
			if g := p.Elem().Type().Field(j); name(g) == prop {
				p.Elem().Field(j).Set(reflect.ValueOf(r))
			}
		}
		v.Field(i).Set(p)
	}
}

// Active: the rules that are set are the ones that are used, until they are reset.
func Active() {
	m := zz.Bool("modified")
	c, at := config(rule(false, false, false))
	at["info.title"].Set(reflect.ValueOf(rule(false, m, false)))
	compare := func() *model.DocumentChanges {
		doc := func(t string) libopenapi.Document {
			return zh.TemplateDoc("openapi: 3.1.0\ninfo: {title: " + t + ", version: '1'}\npaths: {}\n")
		}
		ch, _ := libopenapi.CompareDocuments(doc("a"), doc("b"))
		return ch
	}
	switch zz.Choice("history", 4) {
	case 0:
		model.SetActiveBreakingRulesConfig(c)
	case 1:
		model.SetActiveBreakingRulesConfig(model.GenerateDefaultBreakingRules())
		model.SetActiveBreakingRulesConfig(c)
	case 2:
		model.SetActiveBreakingRulesConfig(c)
		model.ResetActiveBreakingRulesConfig()
		m = false // (the default)
	case 3:
		model.SetActiveBreakingRulesConfig(c)
		model.SetActiveBreakingRulesConfig(nil)
		m = false
	}
	if ch := compare(); ch != nil {
		judge(ch, m, m, m, "the rules in force")
	} else {
		zz.Assert(false, "a changed value is reported")
	}
}

// Validate: a rules file that names existing rules is accepted, one that misspells a property or component is not.
func Validate() {
	_, names := config(nil)
	var all []string
	for k := range names {
		all = append(all, k)
	}
	zh.Sort(all)
	k := all[zz.Choice("rule", len(all))]
	kind := zz.Pick("kind", kinds...)
	comp, prop := k, ""
	if i := strings.IndexByte(k, '.'); i > 0 {
		comp, prop = k[:i], k[i+1:]
	}
	doc := func(comp, prop, kind string) []byte {
		if prop == "" {
			return []byte(comp + ":\n  " + kind + ": true\n")
		}
		return []byte(comp + ":\n  " + prop + ":\n    " + kind + ": true\n")
	}
	file := doc(comp, prop, kind)
	res := model.ValidateBreakingRulesConfigYAML(file)
	zz.Assert(res == nil || !res.HasErrors(), "rules that exist are accepted: "+k)
	var c model.BreakingRulesConfig
	zz.Assert(yaml.Unmarshal(file, &c) == nil, "rules that exist can be read: "+k)
	for _, x := range kinds {
		zz.Assert(c.IsBreaking(comp, prop, x) == (x == kind), "the rules that are read are those in the file: "+k)
	}
}

// Misplaced: a rules file with a rule in the wrong place is rejected, and the mistake is located.
func Misplaced() {
	_, names := config(nil)
	comps, props := map[string]bool{}, map[string]bool{}
	for k := range names {
		c, _, nested := strings.Cut(k, ".")
		comps[c] = comps[c] || nested
		props[k] = true
	}
	var all []string
	for k := range comps {
		all = append(all, k)
	}
	zh.Sort(all)
	a := all[zz.Choice("component", len(all))]
	kind := zz.Pick("kind", kinds...)
	b := all[zz.Choice("inner", len(all)+1)%len(all)]
	blank := strings.Repeat("# note\n", zz.Choice("lines", 2))
	if b == all[0] { // the rule itself below the component
		if !comps[a] {
			return
		}
		b = kind
	} else if props[a+"."+b] || !comps[a] {
		return
	}
	res := model.ValidateBreakingRulesConfigYAML([]byte(blank + a + ":\n  " + b + ":\n    " + kind + ": true\n"))
	what := b + " in " + a
	zz.Assert(res != nil && res.HasErrors(), "a misplaced rule is rejected: "+what)
	if res == nil {
		return
	}
	zz.Cover("rejected")
	e := res.Errors[0]
	zz.Assert(e.FoundKey == b && e.Path == a+"."+b && e.Line == 2+len(blank)/7 && e.Column == 3, "the misplaced rule is located: "+what)
}

// Sum: a run of values differs at once (all of them, or a window); as many changes are breaking as the rules say, where
// every other rule (or all, or two of four) makes a modification breaking.
func Sum() {
	text := templates[zz.Param("t", 31)]
	a, b := zh.TemplateDoc(text), zh.TemplateDoc(text)
	sa, sb := zh.Sites(a.GetSpecInfo().RootNode, -1, ""), zh.Sites(b.GetSpecInfo().RootNode, -1, "")
	c, at := config(rule(false, false, false))
	var all []string
	for k := range at {
		all = append(all, k)
	}
	zh.Sort(all)
	step := zz.Param("step", 16)
	lo := step * zz.Choice("lo", (len(sa)+step-1)/step)
	hi := lo + step
	if zz.Bool("all") {
		if lo > 0 {
			return
		}
		hi = len(sa)
	}
	bit := zz.Choice("bit", 3)
	br := map[string]bool{}
	for i, k := range all {
		if bit == 2 || i>>bit&1 == 1 {
			br[k] = true
			at[k].Set(reflect.ValueOf(rule(true, true, true)))
		}
	}
	model.SetActiveBreakingRulesConfig(c)
	want := 0
	for i, s := range sa {
		k := key(s.Comp, s.Prop)
		if s.Gap || s.Comp == "ext" || s.Comp == "example" || k == "response.examples" || !at[k].IsValid() || i < lo || i >= hi {
			continue
		}
		if strings.Contains(s.Path, "/allOf/") { // (known finding: counted twice)
			continue
		}
		if br[k] {
			want++
		}
		_, sb[i].Node.Value = dflt(s.Kind)
	}
	ch, _ := libopenapi.CompareDocuments(a, b)
	if ch == nil {
		return
	}
	n := 0
	for _, x := range ch.GetAllChanges() {
		if x.Breaking {
			n++
		}
	}
	zz.Assert(n == want, "as many of many changes are breaking as the rules say")
	zz.Assert(ch.TotalBreakingChanges() == n, "the breaking ones of many changes are counted once each")
}

func dflt(kind string) (string, string) {
	switch kind {
	case "i":
		return "7", "5"
	case "b":
		return "true", "false"
	}
	return "", "other"
}
