package P09

import (
	"reflect"
	"strconv"
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel/high/base"
	"github.com/pb33f/libopenapi/orderedmap"
	zh "github.com/pb33f/libopenapi/zz_hlib"
	zz "github.com/pb33f/libopenapi/zz_vsym"
	"go.yaml.in/yaml/v4"
)

var templates = map[int]string{31: zh.Rich31, 32: zh.Rich32, 30: zh.Rich30, 2: zh.RichV2}

// value is any value a site of the kind may hold.
func value(name, kind string) string {
	switch kind {
	case "i":
		return zz.Pick(name, "0", "1", "-1", "44", "9007199254740993")
	case "b":
		return zz.Pick(name, "true", "false")
	}
	if k := zz.Choice(name+".word", 1+len(words)); k > 0 {
		return words[k-1]
	}
	s := zz.String(name, 0, zz.Param("len", 2))
	for i := 0; i < len(s); i++ {
		zz.Assume(zz.And(s[i] >= 0x20, s[i] < 0x7f))
	}
	return s
}

var words = []string{"parameters", "x-men", "true", "null", "$ref", "default"}

func strip(n *yaml.Node) *yaml.Node {
	for n != nil && n.Kind == yaml.DocumentNode {
		n = n.Content[0]
	}
	return n
}

func deep(n *yaml.Node) *yaml.Node {
	if n == nil {
		return nil
	}
	c := *n
	c.Content = nil
	for _, x := range n.Content {
		c.Content = append(c.Content, deep(x))
	}
	return &c
}

// name is how an entry is called in messages.
func name(key *yaml.Node) string {
	if key.HeadComment == "any" {
		return "*"
	}
	return key.Value
}

func get(n *yaml.Node, k string) *yaml.Node {
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == k {
			return n.Content[i+1]
		}
	}
	return nil
}

// kind is the type of a scalar, once written out.
func kind(n *yaml.Node) string {
	if n.Tag == "" && n.Style == 0 {
		if n.Value == "true" || n.Value == "false" {
			return "!!bool"
		}
		if _, err := strconv.ParseFloat(n.Value, 64); err == nil {
			return "!!float"
		}
	}
	return n.ShortTag()
}

func num(t string) bool { return t == "!!int" || t == "!!float" }

// same asserts that two trees hold the same values, in any order of mapping entries.
func same(a, b *yaml.Node, path string) {
	if a.Kind != b.Kind {
		zz.Assert(false, "rendered as it was: "+path+" has another kind")
		return
	}
	switch a.Kind {
	case yaml.ScalarNode:
		zz.Assert(a.Value == b.Value, "rendered as it was: "+path)
		ta, tb := kind(a), kind(b)
		zz.Assert(ta == tb || num(ta) && num(tb), "rendered as it was: "+path+" has another type: "+ta+" became "+tb)
	case yaml.SequenceNode:
		if len(a.Content) != len(b.Content) {
			zz.Assert(false, "rendered as it was: "+path+" has another length")
			return
		}
		for i := range a.Content {
			same(a.Content[i], b.Content[i], path+"/-")
		}
	case yaml.MappingNode:
		for i := 0; i+1 < len(a.Content); i += 2 {
			l := name(a.Content[i])
			o := get(b, a.Content[i].Value)
			if o == nil {
				zz.Assert(false, "rendered as it was: "+path+"/"+l+" is lost")
				continue
			}
			same(a.Content[i+1], o, path+"/"+l)
		}
		for i := 0; i+1 < len(b.Content); i += 2 {
			k := b.Content[i].Value
			if get(a, k) == nil {
				k = zz.Concretize(k)
				zz.Assert(false, "rendered as it was: "+path+"/"+k+" is invented")
			}
		}
		zz.Assert(len(a.Content) == len(b.Content), "rendered as it was: "+path+" holds an entry twice")
	}
}

// lost says that a field is known to get lost (known findings).
func lost(key string) bool { return key == "deviceAuthorization" || key == "x-enc" || key == "x-d" }

func unlose(n *yaml.Node) {
	for again := true; again; {
		again = false
		for _, e := range zh.Edges(n) {
			if e.N == 2 && lost(e.Node.Value) {
				e.Cut()
				again = true
				break
			}
		}
	}
}

// Lost: the fields which get lost.
func Lost() {
	text := templates[zz.Param("t", 31)]
	d := zh.TemplateDoc(text)
	if zz.Param("t", 31) == 2 {
		d = zh.TemplateDoc("swagger: '2.0'\npaths: {/a: {get: {parameters: [{name: n, in: query, type: array, items: {type: string}}]}}}")
		for _, e := range zh.Edges(d.GetSpecInfo().RootNode) {
			if e.Node.Value == "items" {
				n := e.Parent.Content[e.I+1]
				n.Content = append(n.Content, scalarNode("x-zz"), scalarNode("zq"+zz.StringOf("v", 0, 2, "abyzABYZ0189_")))
			}
		}
		check(d, "items")
		return
	}
	var ks []int
	sites := zh.SitesOf(text)
	for i, s := range sites {
		if lost(s.Key) || strings.Contains(s.Path, "/deviceAuthorization/") {
			ks = append(ks, i)
		}
	}
	if len(ks) == 0 {
		return
	}
	k := ks[zz.Choice("site", len(ks))]
	zh.FillDoc(d, k, "zq"+zz.StringOf("v", 0, 2, "abyzABYZ0189_"), true)
	check(d, sites[k].Path)
}

// Same: a document with any value in one place is read as it is, and renders to itself.
func Same() {
	text := templates[zz.Param("t", 31)]
	d := zh.TemplateDoc(text)
	unlose(strip(d.GetSpecInfo().RootNode))
	sites := zh.Sites(deep(d.GetSpecInfo().RootNode), -1, "")
	k := zz.Choice("site", len(sites))
	v := ""
	if sites[k].Key == "$id" {
		v = "zq" + zz.StringOf("id", 0, 2, "abyzABYZ0189_")
	} else {
		v = value("v", sites[k].Kind)
	}
	if sites[k].Kind == "s" && len(v) == 0 {
		zz.Cover("empty")
	}
	zh.FillDoc(d, k, v, zz.Param("whole", 0) == 0)
	check(d, sites[k].Path)
}

// norm does what rendering is known to do to what was left out.
func norm(a, b *yaml.Node) {
	if a.Kind != b.Kind {
		if a.Kind == yaml.SequenceNode && len(a.Content) == 1 && b.Kind == yaml.ScalarNode {
			*a = *a.Content[0] // one type
		}
		return
	}
	switch a.Kind {
	case yaml.SequenceNode:
		for i := range a.Content {
			if i < len(b.Content) {
				norm(a.Content[i], b.Content[i])
			}
		}
	case yaml.MappingNode:
		var out []*yaml.Node
		for i := 0; i+1 < len(a.Content); i += 2 {
			k, v := a.Content[i], a.Content[i+1]
			o := get(b, k.Value)
			if o == nil && len(v.Content) == 0 && (v.Kind == yaml.SequenceNode || k.Value == "$defs" || k.Value == "additionalOperations") {
				continue // nothing is listed
			}
			out = append(out, k, v)
			if o != nil {
				norm(v, o)
			}
		}
		a.Content = out
		out = nil
		for i := 0; i+1 < len(b.Content); i += 2 {
			k, v := b.Content[i], b.Content[i+1]
			if get(a, k.Value) == nil && (k.Value == "description" && v.Value == "" || k.Value == "scopes" && len(v.Content) == 0) {
				continue // required fields
			}
			out = append(out, k, v)
		}
		b.Content = out
	}
}

func dangling(root *yaml.Node) bool {
	var bad bool
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		for i, c := range n.Content {
			if n.Kind == yaml.MappingNode && i%2 == 0 && c.Value == "$ref" && strings.HasPrefix(n.Content[i+1].Value, "#/") {
				x := root
				for _, p := range strings.Split(n.Content[i+1].Value[2:], "/") {
					if x != nil {
						x = get(x, p)
					}
				}
				if x == nil {
					bad = true
				}
			}
			walk(c)
		}
	}
	walk(root)
	return bad
}

// Cut: the same for a document with any part missing.
func Cut() {
	text := templates[zz.Param("t", 31)]
	d := zh.TemplateDoc(text)
	root := d.GetSpecInfo().RootNode
	unlose(strip(root))
	zh.Sites(root, -1, "")
	es := zh.Edges(root)[1:] // (all but the version)
	e := es[zz.Choice("edge", len(es))]
	e.Cut()
	if len(e.Parent.Content) > 0 {
		switch zz.Param("whole", 0) {
		case 0:
			zh.Prune(root, e.Parent)
		}
	} else {
		zh.Prune(root, e.Parent)
	}
	zz.Assume(!dangling(strip(root)))
	check(d, e.Path)
}

// reader walks a document and its high-level model side by side.
type reader struct {
	root *yaml.Node // the document
	site *yaml.Node // the value to change through the model, if any
	to   string
	kind string
	sets int
	via  int // references on the way: what lies behind one is changed where it is defined
}

func (r *reader) bad(path string) { zz.Assert(false, "the model holds what the document says: "+path) }

// field is the field of the object which holds the entry.
func field(v reflect.Value, key string) (reflect.Value, bool) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		tag := f.Tag.Get("yaml")
		if j := strings.IndexByte(tag, ','); j >= 0 {
			tag = tag[:j]
		}
		if tag == "" {
			tag = strings.ToLower(f.Name[:1]) + f.Name[1:]
		}
		if tag == key {
			return v.Field(i), true
		}
	}
	return reflect.Value{}, false
}

func (r *reader) follow(n *yaml.Node) *yaml.Node {
	for n.Kind == yaml.MappingNode {
		ref := get(n, "$ref")
		if ref == nil || ref.Kind != yaml.ScalarNode || !strings.HasPrefix(ref.Value, "#/") {
			return n
		}
		x := r.root
		for _, p := range strings.Split(ref.Value[2:], "/") {
			if x = get(x, p); x == nil {
				return n
			}
		}
		n = x
	}
	return n
}

type finder interface{ FindValueUntyped(string) any }

func isZero(v reflect.Value) bool {
	return !v.IsValid() || (v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface) && v.IsNil()
}

func (r *reader) read(n *yaml.Node, v reflect.Value, path string) {
	if v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if isZero(v) {
		if n.Kind != yaml.ScalarNode && len(n.Content) == 0 {
			return // nothing is listed
		}
		r.bad(path + " is missing")
		return
	}
	if x, ok := v.Interface().(*yaml.Node); ok {
		same(n, x, "(model) "+path)
		if n == r.site && r.via == 0 && v.CanSet() {
			r.sets++
			v.Set(reflect.ValueOf(&yaml.Node{Kind: yaml.ScalarNode, Value: r.to, Tag: n.Tag}))
		}
		return
	}
	if f := r.follow(n); f != n {
		if m, ok := v.Interface().(interface{ IsReference() bool }); ok && v.Elem().Kind() == reflect.Struct && m.IsReference() {
			if _, ok := v.Interface().(interface{ Schema() *base.Schema }); !ok {
				if g, ok := v.Interface().(interface{ GetReference() string }); ok {
					zz.Assert(g.GetReference() == get(n, "$ref").Value, "the model holds what the document says: "+path+"/$ref")
				}
			}
		}
		n = f
		r.via++
		defer func() { r.via-- }()
	}
	if p, ok := v.Interface().(*base.SchemaProxy); ok {
		sc := p.Schema()
		if sc == nil {
			r.bad(path + " is no schema")
			return
		}
		v = reflect.ValueOf(sc)
	}
	if v.Kind() == reflect.Pointer && v.Elem().Kind() == reflect.Struct && strings.HasPrefix(v.Elem().Type().Name(), "DynamicValue") {
		e := v.Elem()
		if e.FieldByName("N").Int() == 0 {
			v = e.FieldByName("A")
		} else {
			v = e.FieldByName("B")
		}
		r.read(n, v, path)
		return
	}
	if m, ok := v.Interface().(finder); ok {
		if n.Kind != yaml.MappingNode {
			r.bad(path + " is a map")
			return
		}
		r.entries(n, m, path)
		return
	}
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Slice:
		if n.Kind == yaml.ScalarNode && v.Len() == 1 {
			r.read(n, v.Index(0), path)
			return
		}
		if n.Kind != yaml.SequenceNode || v.Len() != len(n.Content) {
			r.bad(path + " has another length")
			return
		}
		for i, c := range n.Content {
			r.read(c, v.Index(i), path+"/-")
		}
	case reflect.Struct:
		if n.Kind != yaml.MappingNode {
			r.bad(path + " is an object")
			return
		}
		for i := 0; i+1 < len(n.Content); i += 2 {
			k, x, l := n.Content[i].Value, n.Content[i+1], name(n.Content[i])
			if strings.HasPrefix(k, "x-") {
				if e := v.FieldByName("Extensions"); e.IsValid() {
					if y, ok := e.Interface().(*orderedmap.Map[string, *yaml.Node]); ok && y != nil && y.GetOrZero(k) != nil {
						same(x, y.GetOrZero(k), "(model) "+path+"/"+l)
						if x == r.site && r.via == 0 {
							r.sets++
							y.Set(k, &yaml.Node{Kind: yaml.ScalarNode, Value: r.to, Tag: "!!str"})
						}
						continue
					}
				}
			}
			if f, ok := field(v, k); ok {
				r.read(x, f, path+"/"+l)
				continue
			}
			// maps of objects
			found := false
			for j := 0; j < v.NumField() && !found; j++ {
				if v.Type().Field(j).PkgPath != "" || isZero(v.Field(j)) {
					continue
				}
				if m, ok := v.Field(j).Interface().(finder); ok && m.FindValueUntyped(k) != nil {
					found = true
					r.entry(x, m, k, path+"/"+name(n.Content[i]))
				}
			}
			if !found {
				r.bad(path + "/" + l + " is missing")
			}
		}
	default:
		if n.Kind != yaml.ScalarNode {
			r.bad(path + " is a scalar")
			return
		}
		r.scalar(n, v, path)
	}
}

func (r *reader) entries(n *yaml.Node, m finder, path string) {
	for i := 0; i+1 < len(n.Content); i += 2 {
		r.entry(n.Content[i+1], m, n.Content[i].Value, path+"/"+name(n.Content[i]))
	}
	if l, ok := m.(interface{ Len() int }); ok {
		zz.Assert(2*l.Len() == len(n.Content), "the model holds what the document says: "+path+" has another length")
	}
}

func (r *reader) entry(x *yaml.Node, m finder, k, path string) {
	e := m.FindValueUntyped(k)
	if e == nil {
		r.bad(path + " is missing")
		return
	}
	r.read(x, reflect.ValueOf(e), path)
	if x == r.site && r.via == 0 && r.sets == 0 {
		switch y := m.(type) {
		case *orderedmap.Map[string, string]:
			r.sets++
			y.Set(k, r.to)
		case *orderedmap.Map[string, bool]:
			r.sets++
			y.Set(k, r.to == "true")
		case *orderedmap.Map[string, *yaml.Node]:
			r.sets++
			y.Set(k, &yaml.Node{Kind: yaml.ScalarNode, Value: r.to, Tag: "!!str"})
		}
	}
}

func (r *reader) scalar(n *yaml.Node, v reflect.Value, path string) {
	msg := "the model holds what the document says: " + path
	set := n == r.site && r.via == 0 && v.CanSet()
	if set {
		r.sets++
	}
	switch v.Kind() {
	case reflect.String:
		zz.Assert(v.String() == n.Value, msg)
		if set {
			v.SetString(r.to)
		}
	case reflect.Bool:
		zz.Assert(v.Bool() == (n.Value == "true"), msg)
		if set {
			v.SetBool(r.to == "true")
		}
	case reflect.Int, reflect.Int64:
		x, err := strconv.ParseInt(n.Value, 10, 64)
		zz.Assert(err == nil && v.Int() == x, msg)
		if set {
			y, _ := strconv.ParseInt(r.to, 10, 64)
			v.SetInt(y)
		}
	case reflect.Float64:
		x, err := strconv.ParseFloat(n.Value, 64)
		zz.Assert(err == nil && v.Float() == x, msg)
		if set {
			y, _ := strconv.ParseFloat(r.to, 64)
			v.SetFloat(y)
		}
	default:
		if n.Value != "" {
			zz.Assert(false, msg+": a "+v.Kind().String())
		}
	}
}

func build(d libopenapi.Document) reflect.Value {
	if strings.HasPrefix(d.GetVersion(), "2") {
		m, err := d.BuildV2Model()
		zz.Assert(m != nil && err == nil, "the model is built")
		return reflect.ValueOf(&m.Model)
	}
	m, err := d.BuildV3Model()
	zz.Assert(m != nil && err == nil, "the model is built")
	return reflect.ValueOf(&m.Model)
}

// Edit: a value changed in the model changes in what is rendered, and nothing else does.
func Edit() {
	text := templates[zz.Param("t", 31)]
	d := zh.TemplateDoc(text)
	unlose(strip(d.GetSpecInfo().RootNode))
	sites := zh.Sites(deep(d.GetSpecInfo().RootNode), -1, "")
	k := zz.Choice("site", len(sites))
	for _, w := range []string{"/x-", "/default/", "/example/", "/value/"} {
		if i := strings.Index(sites[k].Path, w); i >= 0 {
			zz.Assume(!strings.Contains(sites[k].Path[i+1:], "/")) // (the model keeps these as nodes)
		}
	}
	s := zh.FillDoc(d, k, dflt(sites[k].Kind), zz.Param("whole", 0) == 0)
	root := strip(d.GetSpecInfo().RootNode)
	src := deep(root)
	v := build(d)
	r := &reader{root: root, site: s.Node, kind: s.Kind}
	switch s.Kind {
	case "i":
		r.to = zz.Pick("v", "0", "1", "-1", "44")
	case "b":
		r.to = zz.Pick("v", "true", "false")
	default:
		r.to = "zq" + zz.StringOf("v", 0, 2, "abyzABYZ0189_")
	}
	r.read(root, v, "")
	zz.Assert(r.sets == 1, "every value can be set: "+s.Path)
	out, err := v.Interface().(interface{ MarshalYAML() (any, error) }).MarshalYAML()
	zz.Assert(err == nil, "the model is rendered")
	_ = out
	at := zh.Edges(root)
	for i, e := range zh.Edges(src) {
		if at[i].Parent.Content[at[i].I+at[i].N-1] == s.Node {
			x := e.Parent.Content[e.I+e.N-1]
			x.Value = r.to
		}
	}
	got := strip(out.(*yaml.Node))
	norm(src, got)
	same(src, got, "")
}

func dflt(kind string) string {
	v, _ := zh.Dflt(kind)
	return v
}

func scalarNode(v string) *yaml.Node {
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: v}
}

// free is any value an extension may have.
func free(name string) *yaml.Node {
	text := scalarNode("zq" + zz.StringOf(name, 0, 1, "abyzABYZ0189_"))
	switch zz.Choice(name+".kind", 4) {
	case 0:
		if k := zz.Choice(name+".word", 1+len(words)); k > 0 {
			return scalarNode(words[k-1])
		}
		s := zz.String(name+".s", 0, zz.Param("len", 1))
		for i := 0; i < len(s); i++ {
			zz.Assume(zz.And(s[i] >= 0x20, s[i] < 0x7f))
		}
		return scalarNode(s)
	case 1:
		return &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{text, {Kind: yaml.ScalarNode, Tag: "!!int", Value: "4"}}}
	case 2:
		return &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{scalarNode("description"), text, scalarNode("get"), {Kind: yaml.MappingNode, Tag: "!!map"}}}
	}
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!bool", Value: zz.Pick(name+".b", "true", "false")}
}

func extends(c string) bool {
	switch c {
	case "", "any", "securityRequirement", "encoding", "discriminator", "items":
		return false
	}
	return true
}

func hasRef(n *yaml.Node) bool { return n.Kind == yaml.MappingNode && get(n, "$ref") != nil }

// check reads the model of a document, and renders it.
func check(d libopenapi.Document, where string) {
	src := deep(strip(d.GetSpecInfo().RootNode))
	v := build(d)
	r := &reader{root: src}
	r.read(src, v, "")
	if m, ok := v.Interface().(interface{ MarshalYAML() (any, error) }); ok {
		out, err := m.MarshalYAML()
		zz.Assert(err == nil, "the model is rendered: "+where)
		got := strip(out.(*yaml.Node))
		norm(src, got)
		same(src, got, "")
	}
}

// Ext: any extension of any object is kept, and harms nothing.
func Ext() {
	d := zh.TemplateDoc(templates[zz.Param("t", 31)])
	root := strip(d.GetSpecInfo().RootNode)
	unlose(root)
	zh.Sites(root, -1, "")
	own := zh.Owners(root)
	es := zh.Edges(root)
	objs := []*yaml.Node{root}
	at := []string{"/"}
	for _, e := range es {
		n := e.Parent.Content[e.I+e.N-1]
		if o, ok := own[n]; ok && o.Prop == "" && extends(o.Comp) && n.Kind == yaml.MappingNode && !hasRef(n) {
			objs = append(objs, n)
			at = append(at, e.Path)
		}
	}
	k := zz.Choice("object", len(objs))
	n := objs[k]
	if zz.Param("whole", 0) == 0 {
		zh.Prune(d.GetSpecInfo().RootNode, n)
	}
	v := free("v")
	key, first := "x-zz", true
	if zz.Param("whole", 0) == 1 {
		key, first = zz.Pick("key", "x-zz", "x-"), zz.Bool("first")
	}
	if first && get(n, "openapi") == nil && get(n, "swagger") == nil {
		n.Content = append([]*yaml.Node{scalarNode(key), v}, n.Content...)
	} else {
		n.Content = append(n.Content, scalarNode(key), v)
	}
	check(d, at[k])
}

// Decoy: what stands below an extension is not taken for a field of the object.
func Decoy() {
	d := zh.TemplateDoc(templates[zz.Param("t", 31)])
	root := strip(d.GetSpecInfo().RootNode)
	unlose(root)
	zh.Sites(root, -1, "")
	own := zh.Owners(root)
	var es []zh.Edge
	for _, e := range zh.Edges(root)[1:] {
		if o, ok := own[e.Parent]; ok && o.Prop == "" && extends(o.Comp) && e.N == 2 && e.Node.Value != "$ref" && !strings.HasPrefix(e.Node.Value, "x-") && o.Comp != "callback" {
			es = append(es, e)
		}
	}
	e := es[zz.Choice("edge", len(es))]
	x := e.Parent.Content[e.I+1]
	if x.Kind == yaml.ScalarNode && x.ShortTag() == "!!str" {
		x.Value = "zq" + zz.StringOf("v", 0, 1, "abyzABYZ0189_")
	}
	e.Cut()
	m := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{e.Node, x}}
	e.Parent.Content = append(e.Parent.Content, scalarNode("x-zz"), m)
	zz.Assume(!dangling(root))
	if zz.Param("whole", 0) == 0 {
		zh.Prune(d.GetSpecInfo().RootNode, e.Parent)
	}
	check(d, e.Path)
}

// Keys: an entry of a map may have any name.
func Keys() {
	d := zh.TemplateDoc(templates[zz.Param("t", 31)])
	root := strip(d.GetSpecInfo().RootNode)
	unlose(root)
	zh.Sites(root, -1, "")
	own := zh.Owners(root)
	var es []zh.Edge
	for _, e := range zh.Edges(root) {
		if o, ok := own[e.Parent]; ok && o.Prop != "" && e.N == 2 {
			was := e.Node.Value
			e.Node.Value = "QQ"
			if !dangling(root) {
				es = append(es, e)
			}
			e.Node.Value = was
		}
	}
	e := es[zz.Choice("edge", len(es))]
	swaggerScopes := zz.Param("t", 31) == 2 && own[e.Parent].Prop == "scopes"
	if zz.Param("whole", 0) == 0 {
		zh.Prune(d.GetSpecInfo().RootNode, e.Parent)
	}
	var s string
	if k := zz.Choice("word", 1+len(keys)); k > 0 {
		s = keys[k-1]
		zz.Assume(!swaggerScopes || s != "x-n") // (an extension there)
	} else {
		s = zz.String("v", 1, zz.Param("len", 1))
		for i := 0; i < len(s); i++ {
			zz.Assume(zz.And(s[i] >= 0x20, s[i] < 0x7f))
		}
	}
	for i := 0; i+1 < len(e.Parent.Content); i += 2 {
		if x := e.Parent.Content[i]; x != e.Node {
			zz.Assume(x.Value != s)
		}
	}
	e.Node.Value, e.Node.Tag, e.Node.HeadComment = s, "!!str", "any"
	check(d, e.Path)
}

var keys = []string{"x-n", "default", "schema", "get", "description", "examples", "true"}

// Inline: rendered inline, every reference is replaced by what it refers to.
func Inline() {
	text := templates[zz.Param("t", 31)]
	d := zh.TemplateDoc(text)
	unlose(strip(d.GetSpecInfo().RootNode))
	sites := zh.Sites(deep(d.GetSpecInfo().RootNode), -1, "")
	k := zz.Choice("site", len(sites))
	v := ""
	if sites[k].Key == "$id" {
		v = "zq" + zz.StringOf("id", 0, 1, "abyzABYZ0189_")
	} else {
		v = value("v", sites[k].Kind)
	}
	zh.FillDoc(d, k, v, zz.Param("whole", 0) == 0)
	root := strip(d.GetSpecInfo().RootNode)
	src := deep(root)
	r := &reader{root: deep(root)}
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		if f := r.follow(n); f != n {
			*n = *deep(f)
		}
		for _, c := range n.Content {
			walk(c)
		}
	}
	walk(src)
	out, err := build(d).Interface().(interface{ MarshalYAMLInline() (any, error) }).MarshalYAMLInline()
	zz.Assert(err == nil, "the model is rendered inline")
	got := strip(out.(*yaml.Node))
	norm(src, got)
	same(src, got, "(inline) ")
}
