package P05

import (
	"context"
	"strings"

	zh "github.com/pb33f/libopenapi/zz_hlib"
	zz "github.com/pb33f/libopenapi/zz_vsym"
)

// names: printable ASCII, as they can be written in a reference.
func ascii(ss ...string) {
	for _, s := range ss {
		for i := 0; i < len(s); i++ {
			zz.Assume(zz.And(s[i] > 0x20, s[i] < 0x7f))
		}
	}
}

// fragment writes the reference token for the name in one of the permitted spellings.
func fragment(name string) string {
	t := zh.Esc(name)
	switch zz.Choice("spelling", 3) {
	case 0: // as it stands: only for names without '%' (which would be read as an escape) and '\'
		zz.Cover("raw")
		for i := 0; i < len(t); i++ {
			zz.Assume(zz.And(t[i] != 0x25, zz.And(t[i] != 0x5c, t[i] != 0x23)))
		}
		return t
	case 1: // percent-encoded where RFC 3986 requires it
		zz.Cover("minimal")
		return pct(t)
	}
	zz.Cover("full")
	return zh.Pct(t, true)
}

func pct(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-._~!$&'()*+,;=:@/?", c) >= 0 {
			out += s[i : i+1]
		} else {
			out += zh.Pct(s[i:i+1], true)
		}
	}
	return out
}

const doc = `openapi: 3.1.0
info: {title: t, version: "1"}
paths: {}
components:
  schemas:
    "@A":
      description: DA
    User:
      properties:
        x: {$ref: "#/components/schemas/@R"}
    "@B":
      description: DB
`

func component(a, b string) {
	ascii(a, b)
	zz.Assume(a != b && a != "User" && b != "User")
	ref := fragment(a)
	m, err := zh.V3(doc, nil, "@A", a, "@B", b, "@R", ref)
	zz.Assert(err == nil, "a document whose reference names an existing component builds")
	s := m.Model.Components.Schemas.GetOrZero("User").Schema().Properties.GetOrZero("x").Schema()
	zz.Assert(s != nil, "the reference resolves")
	zz.Assert(s.Description == "DA", "the model resolves the reference to the component it names")
	r := m.Index.FindComponent(context.Background(), "#/components/schemas/"+ref)
	zz.Assert(r != nil && r.Node != nil && len(r.Node.Content) == 2, "the index finds the component")
	zz.Assert(r.Node.Content[1].Value == "DA", "the index finds the component it names")
}

// Component: a reference to one of two components with arbitrary one-byte (thorough: two-byte) names.
func Component() {
	n := zz.Param("len", 1)
	component(zz.String("a", 1, n), zz.String("b", 1, 1))
}

// Tricky: longer names over the characters that matter to escaping.
func Tricky() {
	n := zz.Param("len", 3)
	al := "%41A~/+"
	component(zz.StringOf("a", n, n, al), zz.StringOf("b", 1, 1, al))
}

const deep = `openapi: 3.1.0
info: {title: t, version: "1"}
paths:
  "/@Q":
    get:
      responses:
        "200":
          description: ok
          content:
            "@M":
              schema: {description: DM}
components:
  schemas:
    Holder:
      properties:
        "@P": {description: DP}
        other: {description: DO}
      allOf:
        - {description: D0}
        - {description: D1, items: {description: DI}}
    User:
      properties:
        prop: {$ref: "#/components/schemas/Holder/properties/@p"}
        media: {$ref: "#/paths/~1@q/get/responses/200/content/@m/schema"}
        elem: {$ref: "#/components/schemas/Holder/allOf/@i"}
        items: {$ref: "#/components/schemas/Holder/allOf/1/items"}
`

// Deep: pointers through property names, path keys, media types and array positions.
func Deep() {
	n := zz.Param("len", 1)
	p, q, md := "p", "q", "m"
	switch zz.Choice("which", 3) {
	case 0:
		p = zz.String("p", 1, n)
		zz.Assume(p != "other")
		ascii(p)
	case 1:
		q = zz.String("q", 1, n)
		ascii(q)
	case 2:
		md = zz.String("md", 1, n)
		ascii(md)
	}
	i := zz.Choice("i", 2)
	m, err := zh.V3(deep, nil, "@P", p, "@Q", q, "@M", md, "@p", fragment(p), "@q", fragment(q), "@m", fragment(md), "@i", []string{"0", "1"}[i])
	zz.Assert(err == nil, "a document whose references name existing values builds")
	pr := m.Model.Components.Schemas.GetOrZero("User").Schema().Properties
	zz.Assert(pr.GetOrZero("prop").Schema().Description == "DP", "a pointer to a property resolves to that property")
	zz.Assert(pr.GetOrZero("media").Schema().Description == "DM", "a pointer through a path and media type resolves to that schema")
	zz.Assert(pr.GetOrZero("elem").Schema().Description == []string{"D0", "D1"}[i], "a pointer to an array position resolves to that item")
	zz.Assert(pr.GetOrZero("items").Schema().Description == "DI", "a pointer below an array position resolves")
}

const missing = `openapi: 3.1.0
info: {title: t, version: "1"}
paths: {}
components:
  schemas:
    "@A": {description: DA, properties: {p: {description: DP}}}
    User:
      properties:
        x: {$ref: "#/components/schemas/@R"}
`

// Missing: a reference to a name that does not exist is reported and not resolved to something else.
func Missing() {
	n := zz.Param("len", 1)
	a, b := zz.String("a", 1, n), zz.String("b", 1, n)
	ascii(a, b)
	zz.Assume(a != b && a != "User" && b != "User")
	ref := fragment(b)
	if zz.Choice("deep", 2) == 1 {
		ref = fragment(a) + "/properties/q"
	}
	m, err := zh.V3(missing, nil, "@A", a, "@R", ref)
	zz.Assert(err != nil, "a reference to a missing component is reported")
	if m != nil {
		s := m.Model.Components.Schemas.GetOrZero("User").Schema()
		if s != nil {
			x := s.Properties.GetOrZero("x")
			zz.Assert(x == nil || x.Schema() == nil, "a reference to a missing component resolves to nothing")
		}
		zz.Assert(m.Index.FindComponent(context.Background(), "#/components/schemas/"+ref) == nil, "the index finds nothing for a missing component")
	}
}

const kinds = `openapi: 3.1.0
info: {title: t, version: "1"}
paths:
  /x:
    parameters: [{$ref: "#/components/parameters/@A"}]
    post:
      requestBody: {$ref: "#/components/requestBodies/@A"}
      responses:
        "200": {$ref: "#/components/responses/@A"}
        "201":
          description: d
          headers: {H: {$ref: "#/components/headers/@A"}}
          content: {a/b: {examples: {e: {$ref: "#/components/examples/@A"}}}}
          links: {l: {$ref: "#/components/links/@A"}}
      callbacks: {c: {$ref: "#/components/callbacks/@A"}}
  /y: {$ref: "#/components/pathItems/@A"}
components:
  parameters: {"@A": {name: n, in: query, description: P}, "@B": {name: m, in: query, description: p}}
  requestBodies: {"@A": {description: B}, "@B": {description: b}}
  responses: {"@A": {description: R}, "@B": {description: r}}
  headers: {"@A": {description: H}, "@B": {description: h}}
  examples: {"@A": {summary: E}, "@B": {summary: e}}
  links: {"@A": {description: L}, "@B": {description: l}}
  callbacks: {"@A": {"{$url}": {get: {description: C}}}, "@B": {"{$url}": {get: {description: c}}}}
  pathItems: {"@A": {description: I}, "@B": {description: i}}
`

// Kinds: every component kind, same symbolic name in each section.
func Kinds() {
	n := zz.Param("len", 1)
	a, b := zz.String("a", 1, n), zz.String("b", 1, n)
	for _, s := range []string{a, b} {
		for i := 0; i < len(s); i++ {
			c := s[i]
			zz.Assume(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == '-' || c == '_')
		}
	}
	zz.Assume(a != b)
	m, err := zh.V3(kinds, nil, "@A", a, "@B", b)
	zz.Assert(err == nil, "a document whose references name existing components builds")
	x := m.Model.Paths.PathItems.GetOrZero("/x")
	zz.Assert(x.Parameters[0].Description == "P", "parameter reference")
	zz.Assert(x.Post.RequestBody.Description == "B", "request body reference")
	zz.Assert(x.Post.Responses.Codes.GetOrZero("200").Description == "R", "response reference")
	r := x.Post.Responses.Codes.GetOrZero("201")
	zz.Assert(r.Headers.GetOrZero("H").Description == "H", "header reference")
	zz.Assert(r.Content.GetOrZero("a/b").Examples.GetOrZero("e").Summary == "E", "example reference")
	zz.Assert(r.Links.GetOrZero("l").Description == "L", "link reference")
	zz.Assert(x.Post.Callbacks.GetOrZero("c").Expression.GetOrZero("{$url}").Get.Description == "C", "callback reference")
	zz.Assert(m.Model.Paths.PathItems.GetOrZero("/y").Description == "I", "path item reference")
}

const swagger = `swagger: "2.0"
info: {title: t, version: "1"}
paths:
  /x:
    get:
      parameters: [{$ref: "#/parameters/@A"}]
      responses:
        "200": {$ref: "#/responses/@A"}
        "201": {description: d, schema: {$ref: "#/definitions/@A"}}
parameters: {"@A": {name: n, in: query, description: P}, "@B": {name: m, in: query, description: p}}
responses: {"@A": {description: R}, "@B": {description: r}}
definitions: {"@A": {description: S}, "@B": {description: s}}
`

// Swagger: the Swagger 2 sections.
func Swagger() {
	n := zz.Param("len", 1)
	a, b := zz.String("a", 1, n), zz.String("b", 1, n)
	for _, s := range []string{a, b} {
		for i := 0; i < len(s); i++ {
			c := s[i]
			zz.Assume(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == '-' || c == '_')
		}
	}
	zz.Assume(a != b)
	m, err := zh.V2(swagger, nil, "@A", a, "@B", b)
	zz.Assert(err == nil, "a Swagger document whose references name existing components builds")
	g := m.Model.Paths.PathItems.GetOrZero("/x").Get
	zz.Assert(g.Parameters[0].Description == "P", "swagger parameter reference")
	zz.Assert(g.Responses.Codes.GetOrZero("200").Description == "R", "swagger response reference")
	zz.Assert(g.Responses.Codes.GetOrZero("201").Schema.Schema().Description == "S", "swagger definition reference")
}

const indexed = `openapi: 3.1.0
info: {title: t, version: "1"}
paths: {}
components:
  schemas:
    Holder:
      allOf: [{description: D0}, {description: D1}]
    User:
      properties:
        x: {$ref: "#/components/schemas/Holder/allOf/@i"}
`

// Index: array positions of any size.
func Index() {
	ix := zz.StringOf("ix", 1, zz.Param("digits", 3), "0123456789")
	switch zz.Choice("size", 3) {
	case 1:
		ix = "9223372036854775" + ix
	case 2:
		ix = "18446744073709551" + ix
	}
	if len(ix) > 1 {
		zz.Assume(ix[0] != '0')
	}
	m, err := zh.V3(indexed, nil, "@i", ix)
	if len(ix) == 1 && ix[0] < '2' {
		zz.Cover("in range")
		zz.Assert(err == nil, "a document whose references name existing values builds")
		s := m.Model.Components.Schemas.GetOrZero("User").Schema().Properties.GetOrZero("x").Schema()
		zz.Assert(s != nil && s.Description == "D"+ix, "a pointer to an array position resolves to that item")
		return
	}
	zz.Cover("past the end")
	zz.Assert(err != nil, "a position past the end of the array is reported")
}
