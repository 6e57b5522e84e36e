package zz_hlib

import (
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
	"go.yaml.in/yaml/v4"
)

// Site is one scalar of a template written "@component.property[:kind][=label][~][!]", kind s (string), i (integer),
// b (boolean). The label is what a change of the value is filed under (the mapping key if none is given), ~ says that
// the scalar lies inside a value which is compared as a whole, and ! that changes of it are known not to be reported.
type Site struct {
	Comp, Prop, Kind string
	Key              string // the mapping key the scalar stands under
	Path             string
	Label            string
	Nested, Gap      bool
	Node             *yaml.Node
}

// Dflt is what a site of the kind holds when it is not the one under test.
func Dflt(kind string) (string, string) {
	switch kind {
	case "i":
		return "7", "!!int"
	case "b":
		return "true", "!!bool"
	}
	return "dflt", "!!str"
}

// Sites fills every site of the tree with its default, except number pick, which gets val; it returns the sites.
func Sites(n *yaml.Node, pick int, val string) []Site {
	var out []Site
	var walk func(n *yaml.Node, key, path string)
	walk = func(n *yaml.Node, key, path string) {
		switch n.Kind {
		case yaml.ScalarNode:
			if !strings.HasPrefix(n.Value, "@") {
				return
			}
			s := Site{Kind: "s", Key: key, Path: path, Node: n}
			v := n.Value[1:]
			if strings.HasSuffix(v, "!") {
				s.Gap, v = true, v[:len(v)-1]
			}
			if strings.HasSuffix(v, "~") {
				s.Nested, v = true, v[:len(v)-1]
			}
			s.Label = key
			if i := strings.IndexByte(v, '='); i >= 0 {
				s.Label, v = v[i+1:], v[:i]
			}
			if i := strings.IndexByte(v, ':'); i >= 0 {
				s.Kind, v = v[i+1:], v[:i]
			}
			i := strings.IndexByte(v, '.')
			s.Comp, s.Prop = v[:i], v[i+1:]
			n.Value, n.Tag = Dflt(s.Kind)
			n.Style = 0
			if pick == len(out) {
				n.Value = val
			}
			out = append(out, s)
		case yaml.MappingNode:
			for i := 0; i+1 < len(n.Content); i += 2 {
				walk(n.Content[i+1], n.Content[i].Value, path+"/"+n.Content[i].Value)
			}
		default:
			for _, c := range n.Content {
				walk(c, key, path+"/-")
			}
		}
	}
	walk(n, "", "")
	return out
}

// SiteDoc is the document of the template with site pick set to val.
func SiteDoc(text string, pick int, val string) libopenapi.Document {
	d := parseDoc(text)
	Sites(d.GetSpecInfo().RootNode, pick, val)
	return d
}

// FillDoc sets site pick of a parsed template to val and drops what the site does not need.
func FillDoc(d libopenapi.Document, pick int, val string, prune bool) Site {
	s := Sites(d.GetSpecInfo().RootNode, pick, val)
	if prune {
		Prune(d.GetSpecInfo().RootNode, s[pick].Node)
	}
	return s[pick]
}

func parseDoc(text string) libopenapi.Document {
	d, err := libopenapi.NewDocumentWithConfiguration([]byte(text), datamodel.NewDocumentConfiguration())
	if err != nil {
		panic("harness: " + err.Error())
	}
	return d
}

// Edge is one removable part of a template: a mapping entry or a sequence element.
type Edge struct {
	Parent *yaml.Node
	Node   *yaml.Node
	I, N   int
	Path   string
}

// Edges lists every mapping entry and sequence element below n.
func Edges(n *yaml.Node) []Edge {
	var out []Edge
	var walk func(n *yaml.Node, path string)
	walk = func(n *yaml.Node, path string) {
		switch n.Kind {
		case yaml.MappingNode:
			for i := 0; i+1 < len(n.Content); i += 2 {
				p := path + "/" + n.Content[i].Value
				out = append(out, Edge{n, n.Content[i], i, 2, p})
				walk(n.Content[i+1], p)
			}
		case yaml.SequenceNode:
			for i, c := range n.Content {
				p := path + "/-" + string(rune('0'+i))
				out = append(out, Edge{n, c, i, 1, p})
				walk(c, p)
			}
		case yaml.DocumentNode:
			walk(n.Content[0], path)
		}
	}
	walk(n, "")
	return out
}

// Cut removes the edge.
func (e Edge) Cut() {
	c := append([]*yaml.Node{}, e.Parent.Content[:e.I]...)
	e.Parent.Content = append(c, e.Parent.Content[e.I+e.N:]...)
}

// Rich31 is an OpenAPI 3.1 template which uses most objects and fields of the specification.
const Rich31 = `openapi: 3.1.0
jsonSchemaDialect: '@jsonSchemaDialect.'
info:
  title: '@info.title'
  summary: '@info.summary'
  description: '@info.description'
  termsOfService: '@info.termsOfService'
  version: '@info.version'
  contact: {name: '@contact.name', url: '@contact.url', email: '@contact.email'}
  license: {name: '@license.name', url: '@license.url', identifier: '@license.identifier'}
  x-info: '@ext.x-info'
externalDocs: {url: '@externalDocs.url', description: '@externalDocs.description'}
servers:
  - url: 'https://{host}/v1'
    description: '@server.description'
    variables:
      host: {default: '@serverVariable.default', description: '@serverVariable.description', enum: [a, b]}
tags:
  - name: one
    description: '@tag.description'
    externalDocs: {url: '@externalDocs.url'}
  - name: two
security:
  - key: [read]
paths:
  /a/{id}:
    summary: '@pathItem.summary'
    description: '@pathItem.description'
    servers: [{url: 'https://two', description: '@server.description'}]
    parameters:
      - {name: id, in: path, required: '@parameter.required:b', description: '@parameter.description', schema: {type: string, minLength: '@schema.minLength:i'}}
    get:
      tags: [one, two]
      summary: '@operation.summary'
      description: '@operation.description'
      operationId: '@operation.operationId'
      deprecated: '@operation.deprecated:b'
      externalDocs: {url: '@externalDocs.url', description: '@externalDocs.description'}
      security: [{key: [read, write]}]
      servers: [{url: 'https://three', description: '@server.description'}]
      x-op: '@ext.x-op'
      parameters:
        - name: q
          in: query
          description: '@parameter.description'
          required: '@parameter.required:b'
          deprecated: '@parameter.deprecated:b'
          allowEmptyValue: '@parameter.allowEmptyValue:b'
          style: '@parameter.style'
          explode: '@parameter.explode:b'
          allowReserved: '@parameter.allowReserved:b'
          example: '@parameter.example'
          schema: {type: string, pattern: '@schema.pattern'}
        - name: h
          in: header
          examples:
            e1: {summary: '@example.summary', description: '@example.description', value: '@example.value'}
          content:
            text/plain: {schema: {type: string, format: '@schema.format'}}
        - $ref: '#/components/parameters/P'
      responses:
        '200':
          description: '@response.description'
          headers:
            X-H: {$ref: '#/components/headers/H'}
            X-A: {description: '@header.description', required: '@header.required:b', deprecated: '@header.deprecated:b', schema: {type: integer, maximum: '@schema.maximum:i'}}
          content:
            application/json:
              schema: {$ref: '#/components/schemas/S'}
              examples:
                e2: {summary: '@example.summary', externalValue: '@example.externalValue'}
                e3: {$ref: '#/components/examples/E'}
          links:
            l2: {$ref: '#/components/links/L'}
            l1:
              operationId: '@link.operationId'
              description: '@link.description'
              parameters: {p: '@link.parameters=parameters'}
              server: {url: '@server.url', description: '@server.description'}
        default: {description: '@response.description'}
    post:
      requestBody:
        description: '@requestBody.description'
        required: '@requestBody.required:b'
        content:
          multipart/form-data:
            schema: {type: object, properties: {f: {type: string, title: '@schema.title'}}}
            encoding:
              f: {contentType: '@encoding.contentType', style: '@encoding.style', explode: '@encoding.explode:b', allowReserved: '@encoding.allowReserved:b', headers: {X-B: {description: '@header.description', schema: {type: string}}}}
      callbacks:
        cr: {$ref: '#/components/callbacks/C'}
        cb:
          '{$request.body#/url}':
            post: {description: '@operation.description', responses: {'202': {description: '@response.description'}}}
      responses:
        '201': {$ref: '#/components/responses/R'}
    put:
      requestBody: {$ref: '#/components/requestBodies/B'}
      responses: {'200': {description: d}}
  /b: {$ref: '#/components/pathItems/I'}
webhooks:
  hook:
    post: {summary: '@operation.summary', responses: {'200': {description: '@response.description'}}}
components:
  schemas:
    S:
      type: object
      title: '@schema.title'
      description: '@schema.description'
      required: [a, b]
      minProperties: '@schema.minProperties:i'
      maxProperties: '@schema.maxProperties:i'
      externalDocs: {url: '@externalDocs.url', description: '@externalDocs.description'}
      xml: {name: '@xml.name', namespace: '@xml.namespace', prefix: '@xml.prefix', attribute: '@xml.attribute:b', wrapped: '@xml.wrapped:b'}
      example: '@schema.example'
      default: '@schema.default'
      deprecated: '@schema.deprecated:b'
      readOnly: '@schema.readOnly:b'
      writeOnly: '@schema.writeOnly:b'
      x-s: '@ext.x-s'
      $anchor: '@schema.$anchor!'
      $schema: '@schema.$schema'
      $dynamicAnchor: '@schema.$dynamicAnchor'
      $dynamicRef: '@schema.$dynamicRef'
      $vocabulary: {'https://v': '@schema.$vocabulary:b=$vocabulary'}
      $defs: {D: {description: '@schema.description!'}}
      dependentRequired: {a: [b, c]}
      contentSchema: {description: '@schema.description'}
      examples: [ex1, '@schema.examples']
      $comment: '@schema.$comment'
      $id: '@schema.$id'
      properties:
        a:
          type: string
          format: '@schema.format'
          pattern: '@schema.pattern'
          minLength: '@schema.minLength:i'
          maxLength: '@schema.maxLength:i'
          contentEncoding: '@schema.contentEncoding'
          contentMediaType: '@schema.contentMediaType'
          enum: [x, y]
          const: '@schema.const'
        b:
          type: number
          minimum: '@schema.minimum:i'
          maximum: '@schema.maximum:i'
          exclusiveMinimum: '@schema.exclusiveMinimum:i'
          exclusiveMaximum: '@schema.exclusiveMaximum:i'
          multipleOf: '@schema.multipleOf:i'
        c:
          type: array
          minItems: '@schema.minItems:i'
          maxItems: '@schema.maxItems:i'
          minContains: '@schema.minContains:i!'
          maxContains: '@schema.maxContains:i!'
          uniqueItems: '@schema.uniqueItems:b'
          items: {description: '@schema.description'}
          prefixItems: [{description: '@schema.description'}]
          contains: {description: '@schema.description'}
          unevaluatedItems: {description: '@schema.description'}
      additionalProperties: {description: '@schema.description'}
      allOf: [{description: '@schema.description'}]
      oneOf: [{description: '@schema.description'}]
      anyOf: [{description: '@schema.description'}]
      not: {description: '@schema.description'}
      if: {description: '@schema.description'}
      then: {description: '@schema.description'}
      else: {description: '@schema.description'}
      propertyNames: {description: '@schema.description'}
      patternProperties: {'^z': {description: '@schema.description'}}
      dependentSchemas: {a: {description: '@schema.description'}}
      unevaluatedProperties: {description: '@schema.description'}
      discriminator: {propertyName: '@discriminator.propertyName', mapping: {m: '@discriminator.mapping'}}
  responses:
    R: {description: '@response.description'}
  parameters:
    P: {name: p, in: query, description: '@parameter.description', schema: {type: string}}
  examples:
    E: {summary: '@example.summary', value: '@example.value'}
  requestBodies:
    B: {description: '@requestBody.description', content: {}}
  headers:
    H: {description: '@header.description', schema: {type: string}}
  links:
    L: {description: '@link.description', operationId: '@link.operationId'}
  callbacks:
    C: {'{$url}': {post: {summary: '@operation.summary', responses: {'200': {description: d}}}}}
  pathItems:
    I: {summary: '@pathItem.summary'}
  securitySchemes:
    key: {type: apiKey, name: '@securityScheme.name', in: header, description: '@securityScheme.description'}
    bearer: {type: http, scheme: '@securityScheme.scheme', bearerFormat: '@securityScheme.bearerFormat'}
    oidc: {type: openIdConnect, openIdConnectUrl: '@securityScheme.openIdConnectUrl'}
    oauth:
      type: oauth2
      flows:
        implicit: {authorizationUrl: '@oauthFlow.authorizationUrl', refreshUrl: '@oauthFlow.refreshUrl', scopes: {r: '@oauthFlow.scopes=scopes', w: d}}
        authorizationCode: {authorizationUrl: '@oauthFlow.authorizationUrl', tokenUrl: '@oauthFlow.tokenUrl', scopes: {r: '@oauthFlow.scopes=scopes'}}
        clientCredentials: {tokenUrl: '@oauthFlow.tokenUrl', scopes: {}}
        password: {tokenUrl: '@oauthFlow.tokenUrl', scopes: {r: d}}
`

// Rich32 adds the OpenAPI 3.2 fields.
const Rich32 = `openapi: 3.2.0
$self: 'https://self'
info: {title: t, version: '1'}
servers: [{url: 'https://one', name: '@server.name', x-srv: '@ext.x-srv'}]
tags:
  - {name: one, summary: '@tag.summary', kind: '@tag.kind', x-tag: '@ext.x-tag'}
  - {name: two, parent: '@tag.parent'}
paths:
  /a:
    query: {summary: '@operation.summary', responses: {'200': {summary: '@response.summary', description: d}}}
    additionalOperations:
      COPY: {description: '@operation.description', responses: {'200': {description: d}}}
    put: {description: '@operation.description', x-put: '@ext.x-put'}
    delete: {description: '@operation.description'}
    options: {description: '@operation.description'}
    head: {description: '@operation.description'}
    patch: {description: '@operation.description'}
    trace: {description: '@operation.description'}
    get:
      parameters:
        - name: pq
          in: query
          x-par: '@ext.x-par'
          examples: {e: {dataValue: '@example.dataValue', serializedValue: '@example.serializedValue', x-ex: '@ext.x-ex'}}
          schema: {type: string}
        - {name: p, in: header, description: '@parameter.description', schema: {type: string}}
      responses:
        '200':
          description: d
          x-resp: '@ext.x-resp'
          headers: {h: {style: '@header.style', explode: '@header.explode:b', allowReserved: '@header.allowReserved:b', allowEmptyValue: '@header.allowEmptyValue:b', example: '@header.example', x-h: '@ext.x-h', schema: {type: string}}}
          links: {L: {$ref: '#/components/links/L'}}
          content:
            application/jsonl:
              x-mt: '@ext.x-mt'
              example: '@mediaType.example'
              itemSchema: {description: '@schema.description'}
              itemEncoding: {i: {contentType: '@encoding.contentType'}}
            application/x: {$ref: '#/components/mediaTypes/M'}
components:
  x-comp: '@ext.x-comp'
  mediaTypes: {M: {example: '@mediaType.example'}}
  schemas:
    S:
      discriminator: {propertyName: '@discriminator.propertyName', defaultMapping: '@discriminator.defaultMapping', mapping: {m: x, n: '@discriminator.mapping'}}
      xml: {name: n, nodeType: '@xml.nodeType', x-xml: '@ext.x-xml'}
      required: [a, b, c]
      enum: [q, r]
      type: [string, integer]
      properties:
        a: {type: object, example: {deep: {er: '@schema.example=example~'}}, default: ['@schema.default=default~', 2]}
        b: {$ref: '#/components/schemas/T'}
        c: {type: array, items: {$ref: '#/components/schemas/T'}}
    T: {type: string, x-t: {deep: ['@ext.x-t=x-t~']}}
  links: {L: {operationRef: '@link.operationRef', requestBody: '@link.requestBody', x-l: '@ext.x-l'}}
  securitySchemes:
    o:
      type: oauth2
      deprecated: '@securityScheme.deprecated:b'
      oauth2MetadataUrl: '@securityScheme.oauth2MetadataUrl'
      x-sec: '@ext.x-sec'
      flows:
        x-fl: '@ext.x-fl'
        deviceAuthorization: {tokenUrl: '@oauthFlow.tokenUrl!', scopes: {}}
        implicit: {authorizationUrl: u, x-f: '@ext.x-f', scopes: {}}
x-root: '@ext.x-root'
`

// Rich30 adds what only OpenAPI 3.0 has.
const Rich30 = `openapi: 3.0.3
info: {title: t, version: '1', contact: {name: n, x-c: '@ext.x-c!'}, license: {name: n, x-lic: '@ext.x-lic!'}}
externalDocs: {url: u, x-ed: '@ext.x-ed'}
paths:
  x-paths: '@ext.x-paths'
  /a:
    x-pi: '@ext.x-pi'
    parameters: [{name: g, in: query, schema: {type: string}}]
    get:
      parameters: [{name: q, in: query, schema: {type: array, items: {type: string, nullable: '@schema.nullable:b'}}}]
      requestBody: {x-rb: '@ext.x-rb', content: {a/b: {schema: {type: string}, encoding: {e: {contentType: c, x-enc: '@ext.x-enc!'}}}}}
      responses:
        x-rs: '@ext.x-rs'
        '200': {description: d}
      callbacks: {cb: {x-cb: '@ext.x-cb', '{$u}': {get: {responses: {'200': {description: d}}}}}}
components:
  schemas:
    S:
      type: integer
      exclusiveMinimum: '@schema.exclusiveMinimum:b'
      exclusiveMaximum: '@schema.exclusiveMaximum:b'
      additionalProperties: '@schema.additionalProperties:b'
      enum: [1, 2]
      default: '@schema.default:i'
      discriminator: {propertyName: p, x-d: '@ext.x-d!'}
`

// RichV2 is a Swagger template.
const RichV2 = `swagger: '2.0'
host: '@swagger.host'
basePath: '@swagger.basePath'
schemes: [http, https]
consumes: [a/b, c/d]
produces: [a/b]
info: {title: '@info.title', version: '@info.version', description: '@info.description', termsOfService: '@info.termsOfService', contact: {name: '@contact.name'}, license: {name: '@license.name'}}
externalDocs: {url: '@externalDocs.url', description: '@externalDocs.description'}
tags: [{name: one, description: '@tag.description'}]
security: [{k: [r]}]
x-root: '@ext.x-root'
paths:
  /a/{id}:
    x-pi: '@ext.x-pi'
    parameters:
      - {name: id, in: path, required: true, type: '@parameter.type', description: '@parameter.description'}
    get:
      tags: [one]
      summary: '@operation.summary'
      description: '@operation.description'
      operationId: '@operation.operationId'
      deprecated: '@operation.deprecated:b'
      consumes: [x/y]
      produces: [x/y, z/w]
      schemes: [http]
      externalDocs: {url: '@externalDocs.url'}
      security: [{k: [r]}]
      parameters:
        - name: q
          in: query
          type: string
          description: '@parameter.description'
          required: '@parameter.required:b'
          allowEmptyValue: '@parameter.allowEmptyValue:b'
          format: '@parameter.format'
          collectionFormat: '@parameter.collectionFormat'
          pattern: '@parameter.pattern'
          maximum: '@parameter.maximum:i'
          minimum: '@parameter.minimum:i'
          exclusiveMaximum: '@parameter.exclusiveMaximum:b'
          exclusiveMinimum: '@parameter.exclusiveMinimum:b'
          maxLength: '@parameter.maxLength:i'
          minLength: '@parameter.minLength:i'
          maxItems: '@parameter.maxItems:i'
          minItems: '@parameter.minItems:i'
          uniqueItems: '@parameter.uniqueItems:b'
          multipleOf: '@parameter.multipleOf:i'
          default: '@parameter.default'
          enum: [a, b]
          x-par: '@ext.x-par'
        - name: arr
          in: query
          type: array
          items: {type: string, format: '@items.format', pattern: '@items.pattern', maxLength: '@items.maxLength:i', default: '@items.default', enum: [a, b]}
        - {name: body, in: body, schema: {type: object, description: '@schema.description'}}
        - {$ref: '#/parameters/P'}
      responses:
        '200':
          description: '@response.description'
          schema: {$ref: '#/definitions/D'}
          headers: {h: {type: string, description: '@header.description', format: '@header.format', pattern: '@header.pattern', maxLength: '@header.maxLength:i', default: '@header.default'}}
          examples: {a/b: '@response.examples'}
        default: {$ref: '#/responses/R'}
    put: {description: '@operation.description', responses: {}}
    post: {description: '@operation.description', responses: {}}
    delete: {description: '@operation.description', responses: {}}
    options: {description: '@operation.description', responses: {}}
    head: {description: '@operation.description', responses: {}}
    patch: {description: '@operation.description', responses: {}}
definitions:
  D: {type: object, description: '@schema.description', required: [a], properties: {a: {type: string, title: '@schema.title'}}}
parameters:
  P: {name: p, in: query, type: string, description: '@parameter.description'}
responses:
  R: {description: '@response.description'}
securityDefinitions:
  k: {type: apiKey, name: '@securityScheme.name', in: header, description: '@securityScheme.description'}
  o: {type: oauth2, flow: implicit, authorizationUrl: '@securityScheme.authorizationUrl', tokenUrl: '@securityScheme.tokenUrl', scopes: {r: '@scopes.scopes=scopes', w: d}}
`

// SitesOf lists the sites of a template.
func SitesOf(text string) []Site {
	return Sites(parseDoc(text).GetSpecInfo().RootNode, -1, "")
}

// Prune drops the objects and lists of a document which the node keep neither lies in nor needs: those beside the way
// to it, and the components nothing refers to any more.
func Prune(root, keep *yaml.Node) {
	body := root
	if body.Kind == yaml.DocumentNode {
		body = body.Content[0]
	}
	if body == keep {
		return
	}
	keepers := map[*yaml.Node]bool{keep: true}
	var on func(n *yaml.Node) bool
	on = func(n *yaml.Node) bool {
		if keepers[n] {
			return true
		}
		for _, c := range n.Content {
			if on(c) {
				return true
			}
		}
		return false
	}
	var refs func(n *yaml.Node, f func(holder *yaml.Node, to string))
	refs = func(n *yaml.Node, f func(holder *yaml.Node, to string)) {
		for i, c := range n.Content {
			if n.Kind == yaml.MappingNode && i%2 == 0 && c.Value == "$ref" && n.Content[i+1].Kind == yaml.ScalarNode {
				f(n, n.Content[i+1].Value)
			}
			refs(c, f)
		}
	}
	// the components: holder of the entries, by the pointer before their names
	type section struct {
		n    *yaml.Node
		at   string
		wide bool // (all entries may be there without a reference)
	}
	var secs []section
	for i := 0; i+1 < len(body.Content); i += 2 {
		switch k, v := body.Content[i].Value, body.Content[i+1]; k {
		case "components":
			if v == keep {
				return
			}
			for j := 0; j+1 < len(v.Content); j += 2 {
				if x := v.Content[j].Value; v.Content[j+1].Kind == yaml.MappingNode && v.Content[j+1] != keep {
					secs = append(secs, section{v.Content[j+1], "#/components/" + x + "/", x == "securitySchemes" || x == "schemas"})
				}
			}
		case "definitions", "parameters", "responses":
			if v != keep {
				secs = append(secs, section{v, "#/" + k + "/", k == "definitions"})
			}
		}
	}
	// what refers to the component the node lies in stays too, since only referenced components are compared
	for _, sec := range secs {
		if sec.wide {
			continue
		}
		for i := 0; i+1 < len(sec.n.Content); i += 2 {
			if on(sec.n.Content[i+1]) {
				at := sec.at + sec.n.Content[i].Value
				refs(body, func(h *yaml.Node, to string) {
					if to == at {
						keepers[h] = true
					}
				})
			}
		}
	}
	isSec := func(n *yaml.Node) bool {
		for _, s := range secs {
			if s.n == n {
				return true
			}
		}
		return false
	}
	var thin func(n *yaml.Node)
	thin = func(n *yaml.Node) {
		if keepers[n] || n.Kind == yaml.ScalarNode {
			return
		}
		var out []*yaml.Node
		if n.Kind == yaml.SequenceNode {
			for _, c := range n.Content {
				if hit := on(c); hit || c.Kind == yaml.ScalarNode {
					if hit {
						thin(c)
					}
					out = append(out, c)
				}
			}
			n.Content = out
			return
		}
		for i := 0; i+1 < len(n.Content); i += 2 {
			k, v := n.Content[i], n.Content[i+1]
			hit := keepers[k] || on(v)
			if hit && !isSec(v) {
				thin(v)
			}
			if hit || isSec(v) || v.Kind == yaml.ScalarNode || k.Value == "required" && n != body {
				out = append(out, k, v)
			} else if n == body && (k.Value == "info" || k.Value == "components") {
				if k.Value == "info" {
					v.Content = []*yaml.Node{scalar("title"), scalar("t"), scalar("version"), scalar("v")}
				} else {
					thin(v)
				}
				out = append(out, k, v)
			}
		}
		n.Content = out
	}
	thin(body)
	// the components still referred to
	used := map[string]bool{}
	need := func(h *yaml.Node, to string) { used[to] = true }
	for _, sec := range secs {
		for i := 0; i+1 < len(sec.n.Content); i += 2 {
			if v := sec.n.Content[i+1]; on(v) {
				thin(v)
				used[sec.at+sec.n.Content[i].Value] = true
			} else if sec.wide {
				v.Content = []*yaml.Node{scalar("type"), scalar("string")}
			}
		}
	}
	for i := 0; i+1 < len(body.Content); i += 2 {
		if !isSec(body.Content[i+1]) && body.Content[i].Value != "components" {
			refs(body.Content[i+1], need)
		}
	}
	for again := true; again; {
		n := len(used)
		for _, sec := range secs {
			for i := 0; i+1 < len(sec.n.Content); i += 2 {
				if used[sec.at+sec.n.Content[i].Value] {
					refs(sec.n.Content[i+1], need)
				}
			}
		}
		again = len(used) > n
	}
	for _, sec := range secs {
		var out []*yaml.Node
		for i := 0; i+1 < len(sec.n.Content); i += 2 {
			if used[sec.at+sec.n.Content[i].Value] {
				out = append(out, sec.n.Content[i], sec.n.Content[i+1])
			}
		}
		sec.n.Content = out
	}
}

func scalar(v string) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: v} }

// Alone drops what stands beside the value in its mapping, except what identifies the object.
func Alone(root, keep *yaml.Node) {
	body := root.Content[0]
	var walk func(n *yaml.Node) bool
	walk = func(n *yaml.Node) bool {
		for _, c := range n.Content {
			if c == keep {
				if n == body || n.Kind != yaml.MappingNode {
					return true
				}
				var out []*yaml.Node
				for i := 0; i+1 < len(n.Content); i += 2 {
					switch k := n.Content[i].Value; {
					case n.Content[i+1] == keep, k == "name", k == "in", k == "url", k == "type", k == "title", k == "version":
						out = append(out, n.Content[i], n.Content[i+1])
					}
				}
				n.Content = out
				return true
			}
			if walk(c) {
				return true
			}
		}
		return false
	}
	walk(body)
}

// TemplateDoc parses a template.
func TemplateDoc(text string) libopenapi.Document { return parseDoc(text) }
