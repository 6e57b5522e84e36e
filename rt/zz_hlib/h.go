// Package zz_hlib holds helpers shared by the harnesses.
package zz_hlib

import (
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
	v2 "github.com/pb33f/libopenapi/datamodel/high/v2"
	v3 "github.com/pb33f/libopenapi/datamodel/high/v3"
	"go.yaml.in/yaml/v4"
)

// Tree parses text and returns the document node.
func Tree(text string) *yaml.Node {
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(text), &n); err != nil {
		panic("harness: " + err.Error())
	}
	return &n
}

// Subst replaces, in every scalar of the tree, each placeholder sub[2i] by the (symbolic) text sub[2i+1].
func Subst(n *yaml.Node, sub ...string) {
	if n.Kind == yaml.ScalarNode {
		for i := 0; i+1 < len(sub); i += 2 {
			if n.Value == sub[i] {
				n.Value = sub[i+1]
				n.Tag = "!!str"
				return
			}
		}
		if !strings.Contains(n.Value, "@") {
			return
		}
		v, out, hit := n.Value, "", false
		for v != "" {
			k := -1
			for i := 0; i+1 < len(sub) && k < 0; i += 2 {
				if strings.HasPrefix(v, sub[i]) {
					k = i
				}
			}
			if k >= 0 {
				out, v, hit = out+sub[k+1], v[len(sub[k]):], true
			} else {
				out, v = out+v[:1], v[1:]
			}
		}
		if hit {
			n.Value = out
			n.Tag = "!!str"
		}
		return
	}
	for _, c := range n.Content {
		Subst(c, sub...)
	}
}

// Doc is NewDocumentWithConfiguration on the text, with the placeholders replaced in the parsed tree.
func Doc(text string, cfg *datamodel.DocumentConfiguration, sub ...string) libopenapi.Document {
	d, err := libopenapi.NewDocumentWithConfiguration([]byte(text), cfg)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if len(sub) > 0 {
		Subst(d.GetSpecInfo().RootNode, sub...)
	}
	return d
}

// V3 builds the model of Doc.
func V3(text string, cfg *datamodel.DocumentConfiguration, sub ...string) (*libopenapi.DocumentModel[v3.Document], error) {
	return Doc(text, cfg, sub...).BuildV3Model()
}

// V2 builds the Swagger model of Doc.
func V2(text string, cfg *datamodel.DocumentConfiguration, sub ...string) (*libopenapi.DocumentModel[v2.Swagger], error) {
	return Doc(text, cfg, sub...).BuildV2Model()
}

const hexd = "0123456789ABCDEF"

// Esc is the RFC 6901 escape of one reference token.
func Esc(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '~':
			out += "~0"
		case '/':
			out += "~1"
		default:
			out += s[i : i+1]
		}
	}
	return out
}

// Pct is the URI-fragment percent-encoding of s: everything but unreserved characters is encoded, '~' and '/' too if all.
func Pct(s string, all bool) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '-', c == '.', c == '_':
			out += s[i : i+1]
		case c == '~' && !all:
			out += "~"
		default:
			out += "%" + string(hexd[c>>4]) + string(hexd[c&15])
		}
	}
	return out
}

// Sort sorts a few strings.
func Sort(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
