package P07

import (
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/what-changed/model"
	zh "github.com/pb33f/libopenapi/zz_hlib"
	zz "github.com/pb33f/libopenapi/zz_vsym"
)

var templates = map[int]string{31: zh.Rich31, 32: zh.Rich32, 30: zh.Rich30, 2: zh.RichV2}

func value(name, kind string) string {
	switch kind {
	case "i":
		return zz.Pick(name, "0", "3", "44")
	case "b":
		return zz.Pick(name, "true", "false")
	}
	// (the prefix keeps the value apart from the template's own words)
	if zz.Param("full", 0) == 0 {
		return "zq" + zz.StringOf(name, 1, zz.Param("len", 1), "abyzABYZ0189_")
	}
	s := zz.String(name, 1, zz.Param("len", 1))
	for i := 0; i < len(s); i++ {
		zz.Assume(zz.And(s[i] > 0x20, s[i] < 0x7f))
	}
	return "zq" + s
}

func doc(d libopenapi.Document, k int, v string) libopenapi.Document {
	s := zh.FillDoc(d, k, v, zz.Param("whole", 0) == 0)
	if zz.Param("alone", 0) == 1 {
		zh.Alone(d.GetSpecInfo().RootNode, s.Node)
	}
	return d
}

// the sites of the template, those which changes are known not to be reported for or the others
func pick(text string, gap bool) (int, zh.Site) {
	var ks []int
	sites := zh.SitesOf(text)
	for i, s := range sites {
		if s.Gap == gap {
			ks = append(ks, i)
		}
	}
	k := ks[zz.Choice("site", len(ks))]
	return k, sites[k]
}

// Site: one value of the document differs, or does not.
func Site() { site(false) }

// Gaps does the same for the values which changes are not reported for (known findings).
func Gaps() { site(true) }

func site(gap bool) {
	text := templates[zz.Param("t", 31)]
	dl, dr := zh.TemplateDoc(text), zh.TemplateDoc(text)
	k, s := pick(text, gap)
	l, r := value("l", s.Kind), value("r", s.Kind)
	c, _ := libopenapi.CompareDocuments(doc(dl, k, l), doc(dr, k, r))
	at := " (" + s.Path + ")"
	if l == r {
		zz.Cover("same")
		zz.Assert(c == nil || c.TotalChanges() == 0, "equal documents have no changes"+at)
		return
	}
	zz.Assert(c != nil && c.TotalChanges() != 0, "a changed value is reported"+at)
	if c == nil || c.TotalChanges() == 0 {
		return
	}
	zz.Cover("changed")
	check(c, s, l, r, at)
	if zz.Param("swap", 0) == 1 {
		c, _ = libopenapi.CompareDocuments(doc(zh.TemplateDoc(text), k, r), doc(zh.TemplateDoc(text), k, l))
		zz.Assert(c != nil, "a changed value is reported in both directions"+at)
		if c != nil {
			check(c, s, r, l, at)
		}
	}
}

func check(c *model.DocumentChanges, s zh.Site, l, r, at string) {
	all := c.GetAllChanges()
	zz.Assert(len(all) == 1 && c.TotalChanges() == 1, "a changed value is one change"+at)
	if len(all) != 1 {
		return
	}
	ch := all[0]
	zz.Assert(ch.ChangeType == model.Modified, "a changed value is a modification"+at)
	zz.Assert(ch.Property == s.Label, "the change names the property"+at)
	switch {
	case s.Nested:
	case s.Label == "$vocabulary":
		zz.Assert(strings.HasSuffix(ch.Original, l) && strings.HasSuffix(ch.New, r), "the change names the old and the new value"+at)
	default:
		zz.Assert(ch.Original == l && ch.New == r, "the change names the old and the new value"+at)
	}
	n := 0
	if ch.Breaking {
		n = 1
	}
	zz.Assert(c.TotalBreakingChanges() == n, "the breaking changes are counted"+at)
}

// parts lists the removable parts of the template that can be cut out without leaving a dangling reference.
func parts(text string) ([]int, []zh.Edge) {
	d := zh.SiteDoc(text, -1, "")
	es := zh.Edges(d.GetSpecInfo().RootNode)
	var ks []int
	for i := 1; i < len(es); i++ { // (0 is the version)
		if !holds(es[i].Path) {
			continue
		}
		ks = append(ks, i)
	}
	return ks, es
}

// holds leaves out what other parts refer to, what is known not to be reported, and maps that are empty anyway
func holds(p string) bool {
	seg := strings.Split(p, "/")
	switch seg[1] {
	case "components":
		if len(seg) < 3 || (len(seg) <= 4 && seg[2] != "securitySchemes" && !strings.HasPrefix(seg[2], "x-")) {
			return false
		}
	case "definitions", "parameters", "responses":
		if len(seg) < 4 {
			return false
		}
	case "securityDefinitions": // known finding: harness Schemes
		if len(seg) < 4 {
			return false
		}
	}
	for _, g := range []string{"/$anchor", "/$defs", "/minContains", "/maxContains", "/deviceAuthorization", "/contact/x-c", "/license/x-lic",
		"/e/x-enc", "/discriminator/x-d", "/items/enum", "/headers/h/default", "/requestBodies/B/content", "/clientCredentials/scopes",
		"/implicit/scopes!"} {
		if strings.Contains(p+"!", g) {
			return false
		}
	}
	return true
}

func cutDoc(d libopenapi.Document, k int, edit func(e zh.Edge)) libopenapi.Document {
	zh.Sites(d.GetSpecInfo().RootNode, -1, "")
	root := d.GetSpecInfo().RootNode
	e := zh.Edges(root)[k]
	if zz.Param("whole", 0) == 0 {
		zh.Prune(root, e.Parent)
	}
	if edit != nil {
		// (pruning may have moved the entry)
		for i, c := range e.Parent.Content {
			if c == e.Node {
				e.I = i
			}
		}
		edit(e)
	}
	return d
}

func class(t int) int {
	switch t {
	case model.PropertyAdded, model.ObjectAdded:
		return 1
	case model.PropertyRemoved, model.ObjectRemoved:
		return -1
	}
	return 0
}

// identity says that the part identifies the object it is in, so that without it the object is another one
func identity(p string) bool {
	for _, k := range []string{"/name", "/url", "/in", "/$ref"} {
		if strings.HasSuffix(p, k) {
			return true
		}
	}
	return strings.Contains(p, "/security/-")
}

// Cut: one part of the document is missing from one side.
func Cut() {
	text := templates[zz.Param("t", 31)]
	da, db := zh.TemplateDoc(text), zh.TemplateDoc(text)
	ks, es := parts(text)
	k := ks[zz.Choice("part", len(ks))]
	p := es[k].Path
	at := " (" + p + ")"
	cut := func(e zh.Edge) { e.Cut() }
	cutDoc(da, k, nil)
	cutDoc(db, k, cut)
	c, _ := libopenapi.CompareDocuments(da, db)
	b, _ := libopenapi.CompareDocuments(db, da)
	zz.Assert(c != nil && c.TotalChanges() > 0, "a removed part is reported"+at)
	zz.Assert(b != nil && b.TotalChanges() > 0, "an added part is reported"+at)
	if c == nil || b == nil {
		return
	}
	fw, bw := c.GetAllChanges(), b.GetAllChanges()
	zz.Assert(c.TotalChanges() == len(fw) && b.TotalChanges() == len(bw), "the changes are counted"+at)
	zz.Assert(len(fw) == len(bw), "a removal is as many changes as the addition"+at)
	used := make([]bool, len(bw))
	for _, x := range fw {
		if !identity(p) {
			zz.Assert(class(x.ChangeType) != 1, "removing a part adds nothing"+at)
		}
		found := false
		for j, y := range bw {
			if !used[j] && class(y.ChangeType) == -class(x.ChangeType) && x.Property == y.Property {
				used[j], found = true, true
				break
			}
		}
		zz.Assert(found, "every change has its mirror image in the opposite comparison"+at)
	}
}

// Order: two neighbouring entries of a mapping are swapped.
func Order() {
	text := templates[zz.Param("t", 31)]
	da, db := zh.TemplateDoc(text), zh.TemplateDoc(text)
	d := zh.SiteDoc(text, -1, "")
	es := zh.Edges(d.GetSpecInfo().RootNode)
	var ks []int
	for i, e := range es {
		if e.N == 2 && e.I > 0 {
			ks = append(ks, i)
		}
	}
	k := ks[zz.Choice("part", len(ks))]
	c, _ := libopenapi.CompareDocuments(cutDoc(da, k, nil), cutDoc(db, k, func(e zh.Edge) {
		if n := e.Parent.Content; e.I > 0 {
			n[e.I], n[e.I-2] = n[e.I-2], n[e.I]
			n[e.I+1], n[e.I-1] = n[e.I-1], n[e.I+1]
		}
	}))
	zz.Assert(c == nil || c.TotalChanges() == 0, "the order of mapping entries is no change ("+es[k].Path+")")
}

// named says that the part is an entry of a map whose keys the author of the document chooses
func named(p string) bool {
	i := strings.LastIndex(p, "/")
	if i < 0 {
		return false
	}
	switch up := p[:i]; up[strings.LastIndex(up, "/")+1:] {
	case "examples", "headers", "content", "links", "callbacks", "scopes", "mapping", "parameters", "properties", "responses", "encoding",
		"variables", "patternProperties", "dependentSchemas", "dependentRequired", "$vocabulary", "webhooks", "schemas", "securitySchemes",
		"additionalOperations", "itemEncoding":
		return true
	}
	return false
}

// Rename: one mapping key is written differently.
func Rename() {
	text := templates[zz.Param("t", 31)]
	da, db := zh.TemplateDoc(text), zh.TemplateDoc(text)
	all, es := parts(text)
	var ks []int
	for _, k := range all {
		if es[k].N == 2 && (zz.Param("maps", 0) == 0 || named(es[k].Path)) {
			ks = append(ks, k)
		}
	}
	k := ks[zz.Choice("part", len(ks))]
	suffix := zz.StringOf("suffix", 1, zz.Param("len", 1), "qzQZ09_")
	c, _ := libopenapi.CompareDocuments(cutDoc(da, k, nil), cutDoc(db, k, func(e zh.Edge) { e.Parent.Content[e.I].Value += suffix }))
	zz.Assert(c != nil && c.TotalChanges() > 0, "a renamed part is reported ("+es[k].Path+")")
}

// Schemes: a Swagger security definition is added or removed (known finding).
func Schemes() {
	text := func(s string) libopenapi.Document {
		return zh.TemplateDoc("swagger: '2.0'\ninfo: {title: t, version: '1'}\npaths: {}\nsecurityDefinitions:\n  a: {type: basic}\n" + s)
	}
	n := zz.Pick("name", "b", "c")
	a, b := text(""), text("  "+n+": {type: basic}\n")
	if zz.Bool("add") {
		a, b = b, a
	}
	c, _ := libopenapi.CompareDocuments(a, b)
	zz.Assert(c != nil && c.TotalChanges() > 0, "an added or removed Swagger security definition is reported")
}

// Move: a value moves from one field of an object to another (known finding for those that hash the same).
func Move() {
	text := zz.Pick("object",
		"info: {title: t, version: '1', KEY: v}\npaths: {}\n|summary|description",
		"info: {title: t, version: '1', contact: {KEY: v}}\npaths: {}\n|name|email",
		"info: {title: t, version: '1'}\npaths: {/a: {get: {KEY: v}}}\n|summary|description",
		"info: {title: t, version: '1'}\npaths: {/a: {KEY: v, get: {}}}\n|summary|description",
		"info: {title: t, version: '1'}\npaths: {}\ncomponents: {schemas: {S: {KEY: v}}}\n|title|description",
		"info: {title: t, version: '1'}\npaths: {}\ncomponents: {schemas: {S: {KEY: 3}}}\n|minLength|maxLength",
		"info: {title: t, version: '1'}\npaths: {}\ntags: [{name: n, KEY: v}]\n|summary|description",
	)
	p := strings.Split(text, "|")
	doc := func(k string) libopenapi.Document {
		return zh.TemplateDoc("openapi: 3.1.0\n" + strings.Replace(p[0], "KEY", k, 1))
	}
	a, b := p[1], p[2]
	if zz.Bool("back") {
		a, b = b, a
	}
	c, _ := libopenapi.CompareDocuments(doc(a), doc(b))
	zz.Assert(c != nil && c.TotalChanges() > 0, "a value that moves from "+a+" to "+b+" is reported: "+strings.ReplaceAll(p[0], "\n", " "))
}

// Sum: a run of values differs at once (all of them, or a window); every one of them is one change.
func Sum() {
	text := templates[zz.Param("t", 31)]
	a, b := zh.TemplateDoc(text), zh.TemplateDoc(text)
	sa, sb := zh.Sites(a.GetSpecInfo().RootNode, -1, ""), zh.Sites(b.GetSpecInfo().RootNode, -1, "")
	step := zz.Param("step", 8)
	lo := step * zz.Choice("lo", (len(sa)+step-1)/step)
	hi := lo + []int{2 * step, 4 * step, len(sa)}[zz.Choice("window", 3)]
	if lo > 0 && hi >= lo+len(sa) {
		return
	}
	want := map[string]int{}
	n := 0
	for i, s := range sa {
		if s.Gap || i < lo || i >= hi {
			continue
		}
		n++
		want[s.Label]++
		switch s.Kind {
		case "i":
			sb[i].Node.Value = "5"
		case "b":
			sb[i].Node.Value = "false"
		default:
			sb[i].Node.Value = "other"
		}
	}
	c, _ := libopenapi.CompareDocuments(a, b)
	zz.Assert(c != nil, "many changes are reported")
	if c == nil {
		return
	}
	all := c.GetAllChanges()
	zz.Assert(len(all) == n && c.TotalChanges() == n, "every one of many changed values is one change")
	breaking := 0
	for _, x := range all {
		want[x.Property]--
		if x.Breaking {
			breaking++
		}
		zz.Assert(x.ChangeType == model.Modified, "every one of many changed values is a modification")
	}
	for _, v := range want {
		zz.Assert(v == 0, "every one of many changes names its property")
	}
	zz.Assert(c.TotalBreakingChanges() == breaking, "the breaking ones of many changes are counted")
}
