package zz_hlib

import (
	"strings"

	"go.yaml.in/yaml/v4"
)

// grammar names the kind of the object below each key of an object of a kind: "key kind". A kind that starts with "*"
// is a map (or a list) of that kind, "-" is a list of scalars, "=" a scalar or anything else without objects.
var grammar = map[string]string{
	"document": "info info|externalDocs externalDocs|servers *server|tags *tag|security *securityRequirement|paths paths|webhooks *pathItem|components components|" +
		"definitions *schema|parameters *parameter|responses *response|securityDefinitions *securityScheme",
	"info":                 "contact contact|license license",
	"server":               "variables *serverVariable",
	"tag":                  "externalDocs externalDocs",
	"paths":                "* pathItem",
	"pathItem":             "get operation|put operation|post operation|delete operation|options operation|head operation|patch operation|trace operation|query operation|additionalOperations *operation|servers *server|parameters *parameter",
	"operation":            "externalDocs externalDocs|parameters *parameter|requestBody requestBody|responses responses|callbacks *callback|security *securityRequirement|servers *server",
	"parameter":            "schema schema|examples *example|content *mediaType|items items",
	"requestBody":          "content *mediaType",
	"responses":            "* response",
	"response":             "headers *header|content *mediaType|links *link|schema schema",
	"header":               "schema schema|examples *example|content *mediaType|items items",
	"mediaType":            "schema schema|itemSchema schema|examples *example|encoding *encoding|itemEncoding *encoding",
	"encoding":             "headers *header",
	"callback":             "* pathItem",
	"link":                 "server server|parameters *any",
	"components":           "schemas *schema|responses *response|parameters *parameter|examples *example|requestBodies *requestBody|headers *header|links *link|callbacks *callback|pathItems *pathItem|securitySchemes *securityScheme|mediaTypes *mediaType",
	"securityScheme":       "flows oauthFlows|scopes *any",
	"oauthFlows":           "* oauthFlow",
	"oauthFlow":            "scopes *any",
	"schema": "externalDocs externalDocs|xml xml|discriminator discriminator|properties *schema|patternProperties *schema|dependentSchemas *schema|$defs *schema|" +
		"items schema|prefixItems *schema|contains schema|unevaluatedItems schema|additionalProperties schema|unevaluatedProperties schema|" +
		"allOf *schema|oneOf *schema|anyOf *schema|not schema|if schema|then schema|else schema|propertyNames schema|contentSchema schema|" +
		"$vocabulary *any|dependentRequired *any",
	"discriminator": "mapping *any",
}

func child(kind, key string) string {
	for _, f := range strings.Split(grammar[kind], "|") {
		if i := strings.IndexByte(f, ' '); i > 0 && (f[:i] == key || f[:i] == "*") {
			return f[i+1:]
		}
	}
	return ""
}

// Owner says which component and property an entry of the document belongs to.
type Owner struct{ Comp, Prop string }

// Owners maps every mapping and sequence below the root to what it is: the component of an object, or the component
// and the property of a map or list.
func Owners(root *yaml.Node) map[*yaml.Node]Owner {
	out := map[*yaml.Node]Owner{}
	if root.Kind == yaml.DocumentNode {
		root = root.Content[0]
	}
	owners(root, "document", out)
	return out
}

func owners(n *yaml.Node, kind string, out map[*yaml.Node]Owner) {
	out[n] = Owner{Comp: kind}
	if n.Kind != yaml.MappingNode || kind == "" {
		return
	}
	for i := 0; i+1 < len(n.Content); i += 2 {
		key, v := n.Content[i].Value, n.Content[i+1]
		if strings.HasPrefix(key, "x-") {
			continue
		}
		c := child(kind, key)
		if !strings.HasPrefix(c, "*") {
			if v.Kind == yaml.SequenceNode {
				out[v] = Owner{kind, key}
				continue
			}
			owners(v, c, out)
			continue
		}
		out[v] = Owner{kind, key}
		for j := 0; j < len(v.Content); j++ {
			if v.Kind == yaml.MappingNode {
				j++
			}
			owners(v.Content[j], c[1:], out)
		}
	}
}
