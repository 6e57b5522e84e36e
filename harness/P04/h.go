package P04

import (
	"bytes"
	gojson "encoding/json"

	"github.com/pb33f/libopenapi/json"
	zz "github.com/pb33f/libopenapi/zz_vsym"
	"go.yaml.in/yaml/v4"
)

type kind int

// node is the reference content: an ordered tree.
type val struct {
	k     byte // s n b 0 m l
	s     string
	b     bool
	keys  []string
	items []*val
}

func str(s string) *yaml.Node {
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s, Style: yaml.DoubleQuotedStyle}
}

func build(depth, fan int, anchors *[]*yaml.Node, avals *[]*val) (*yaml.Node, *val) {
	n := 6
	if depth > 0 {
		n = 8
	}
	switch zz.Choice("kind", n) {
	case 0:
		return str("s"), &val{k: 's', s: "s"}
	case 1:
		zz.Cover("number")
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!int", Value: "-12"}, &val{k: 'n', s: "-12"}
	case 2:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!float", Value: "1.5"}, &val{k: 'n', s: "1.5"}
	case 3:
		zz.Cover("bool")
		b := zz.Choice("b", 2) == 1
		t := "false"
		if b {
			t = "true"
		}
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!bool", Value: t}, &val{k: 'b', b: b}
	case 4:
		zz.Cover("null")
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null", Value: "null"}, &val{k: '0'}
	case 5:
		if len(*anchors) == 0 {
			return str("123"), &val{k: 's', s: "123"}
		}
		zz.Cover("alias")
		i := zz.Choice("alias", len(*anchors))
		return &yaml.Node{Kind: yaml.AliasNode, Value: "x", Alias: (*anchors)[i]}, (*avals)[i]
	case 6:
		zz.Cover("map")
		m := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
		v := &val{k: 'm'}
		c := zz.Choice("n", fan+1)
		for i := 0; i < c; i++ {
			kn := []string{"z", "a", "m"}[i]
			cn, cv := build(depth-1, fan, anchors, avals)
			m.Content = append(m.Content, str(kn), cn)
			v.keys = append(v.keys, kn)
			v.items = append(v.items, cv)
		}
		*anchors = append(*anchors, m)
		*avals = append(*avals, v)
		return m, v
	default:
		zz.Cover("seq")
		m := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
		v := &val{k: 'l'}
		c := zz.Choice("n", fan+1)
		for i := 0; i < c; i++ {
			cn, cv := build(depth-1, fan, anchors, avals)
			m.Content = append(m.Content, cn)
			v.items = append(v.items, cv)
		}
		*anchors = append(*anchors, m)
		*avals = append(*avals, v)
		return m, v
	}
}

func expect(d *gojson.Decoder, v *val) {
	t, err := d.Token()
	zz.Assert(err == nil, "the output is well-formed JSON")
	switch v.k {
	case 's':
		s, ok := t.(string)
		zz.Assert(ok && s == v.s, "a string scalar stays that string")
	case 'n':
		n, ok := t.(gojson.Number)
		zz.Assert(ok && string(n) == v.s, "a number stays that number")
	case 'b':
		b, ok := t.(bool)
		zz.Assert(ok && b == v.b, "a boolean stays that boolean")
	case '0':
		zz.Assert(t == nil, "null stays null")
	case 'm':
		zz.Assert(t == any(gojson.Delim('{')), "a mapping becomes an object")
		for i := range v.keys {
			k, err := d.Token()
			ks, ok := k.(string)
			zz.Assert(err == nil && ok && ks == v.keys[i], "object keys keep the mapping's order")
			expect(d, v.items[i])
		}
		t, err = d.Token()
		zz.Assert(err == nil && t == any(gojson.Delim('}')), "an object has no extra members")
	case 'l':
		zz.Assert(t == any(gojson.Delim('[')), "a sequence becomes an array")
		for i := range v.items {
			expect(d, v.items[i])
		}
		t, err = d.Token()
		zz.Assert(err == nil && t == any(gojson.Delim(']')), "an array has no extra items")
	}
}

func check(n *yaml.Node, v *val) {
	ind := []string{"", "  "}[zz.Choice("indent", 2)]
	out, err := json.YAMLNodeToJSON(n, ind)
	zz.Assert(err == nil, "a supported tree converts")
	d := gojson.NewDecoder(bytes.NewReader(out))
	d.UseNumber()
	expect(d, v)
	zz.Assert(!d.More(), "nothing follows the value")
}

func Tree() {
	var a []*yaml.Node
	var av []*val
	n, v := build(zz.Param("depth", 2), zz.Param("fan", 2), &a, &av)
	if zz.Choice("doc", 2) == 1 {
		n = &yaml.Node{Kind: yaml.DocumentNode, Content: []*yaml.Node{n}}
	}
	check(n, v)
}

func printable(s string) {
	for i := 0; i < len(s); i++ {
		zz.Assume(zz.And(s[i] >= 0x20, s[i] < 0x7f))
	}
}

func Text() {
	k := zz.String("k", 0, zz.Param("len", 2))
	s := zz.String("v", 0, zz.Param("len", 2))
	printable(k)
	printable(s)
	n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{str(k), str(s), str("other"), {Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{str(s)}}}}
	zz.Assume(k != "other")
	check(n, &val{k: 'm', keys: []string{k, "other"}, items: []*val{{k: 's', s: s}, {k: 'l', items: []*val{{k: 's', s: s}}}}})
}

func Keys() {
	var kn *yaml.Node
	var want string
	switch zz.Choice("key", 8) {
	case 0:
		kn, want = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!int", Value: "200"}, "200"
	case 1:
		kn, want = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!bool", Value: "true"}, "true"
	case 2:
		kn, want = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!float", Value: "1.5"}, "1.5"
	case 3:
		kn, want = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null", Value: "null"}, "null"
	case 4:
		kn, want = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null", Value: "~"}, "null"
	case 5:
		kn, want = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null", Value: ""}, "null"
	case 6:
		kn, want = str("200"), "200"
	case 7:
		t := str("name")
		t.Anchor = "x"
		kn, want = &yaml.Node{Kind: yaml.AliasNode, Value: "x", Alias: t}, "name"
	}
	n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{kn, str("v"), str("k2"), str("w")}}
	check(n, &val{k: 'm', keys: []string{want, "k2"}, items: []*val{{k: 's', s: "v"}, {k: 's', s: "w"}}})
}

var styles = []yaml.Style{0, yaml.DoubleQuotedStyle, yaml.SingleQuotedStyle, yaml.LiteralStyle, yaml.FoldedStyle}

// Looks: a scalar tagged as a string is a string however it is written and whatever it looks like, and an
// integer or boolean stays itself.
func Looks() {
	if zz.Choice("what", 2) == 0 {
		s := zz.StringOf("s", 0, zz.Param("len", 3), "019+-.e_xotrunlf~ys:")
		st := styles[zz.Choice("style", len(styles))]
		zz.Cover("string")
		n := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s, Style: st}
		v := &val{k: 's', s: s}
		switch zz.Choice("where", 3) {
		case 0:
			check(n, v)
		case 1:
			check(&yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{n, n}}, &val{k: 'm', keys: []string{s}, items: []*val{v}})
		case 2:
			check(&yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{n}}, &val{k: 'l', items: []*val{v}})
		}
		return
	}
	s := zz.StringOf("d", 1, zz.Param("len", 3), "0123456789")
	zz.Assume(zz.Or(s[0] != '0', len(s) == 1))
	zz.Cover("int")
	check(&yaml.Node{Kind: yaml.ScalarNode, Tag: "!!int", Value: s}, &val{k: 'n', s: s})
}
