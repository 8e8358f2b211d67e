package xml

import (
	"encoding/xml"
	"io"
	"math/rand"
	"strings"
)

// X01: XML documents as trees, and the nodes that a path selects. Within the
// verifier the decoder of the standard library is a stand-in that gives the
// nodes of the document; replays start from its text.

// vpElem is an element with up to two attributes and up to two elements in it.
type vpElem struct {
	name  string
	k, z  string
	hasK  bool
	hasZ  bool
	inner []vpLeaf
	count int
}

type vpLeaf struct{ name, text string }

var vpElems []vpElem

func sum_newDecoder(r io.Reader) *xml.Decoder { return nil }

func sum_decode(d *xml.Decoder, v any) error {
	root := v.(*XmlNode)
	root.XMLName.Local = "root"
	root.Attributes = map[string]string{}
	root.ChildNodes = make([]XmlNode, len(vpElems))
	for i := range vpElems {
		e, n := &vpElems[i], &root.ChildNodes[i]
		n.XMLName.Local = e.name
		n.Attributes = map[string]string{}
		if e.hasK {
			n.Attributes["k"] = e.k
		}
		if e.hasZ {
			n.Attributes["z"] = e.z
		}
		n.ChildNodes = make([]XmlNode, e.count)
		for j := 0; j < e.count; j++ {
			n.ChildNodes[j].XMLName.Local = e.inner[j].name
			n.ChildNodes[j].InnerXml = []byte(e.inner[j].text)
			n.ChildNodes[j].Attributes = map[string]string{}
		}
	}
	return nil
}

// vpText is the document as text.
func vpText(elems []vpElem) string {
	var b strings.Builder
	b.WriteString("<root>")
	for _, e := range elems {
		b.WriteString("<" + e.name)
		if e.hasK {
			b.WriteString(` k="` + e.k + `"`)
		}
		if e.hasZ {
			b.WriteString(` z="` + e.z + `"`)
		}
		b.WriteString(">")
		for _, l := range e.inner[:e.count] {
			b.WriteString("<" + l.name + ">" + l.text + "</" + l.name + ">")
		}
		b.WriteString("</" + e.name + ">")
	}
	b.WriteString("</root>")
	return b.String()
}

func vpPlain(s string, empty bool) bool {
	for _, r := range s {
		if !strings.ContainsRune("abcdv=xy", r) {
			return false
		}
	}
	return empty || len(s) > 0 && !strings.Contains(s, "=")
}

// vpCase runs f with n as a constant.
func vpCase(n, from, to int, f func(n int)) {
	for i := from; i <= to; i++ {
		if n == i {
			f(i)
			return
		}
	}
}

// vpDocument loads a document with the first n of the elements, which have
// their first elements only if deep.
func vpDocument(elems []vpElem) *XmlDocument {
	vpElems = elems
	if vpConcrete() {
		for _, e := range elems {
			vpRequires(vpPlain(e.name, false) && vpPlain(e.k, true) && vpPlain(e.z, true))
			for _, l := range e.inner[:e.count] {
				vpRequires(vpPlain(l.name, false) && vpPlain(l.text, true))
			}
		}
	}
	xd := &XmlDocument{}
	vpEnsures("loaded", xd.LoadXml([]byte(vpTextOf(elems))) == nil)
	return xd
}

func vpTextOf(elems []vpElem) string {
	if vpConcrete() {
		return vpText(elems)
	}
	return ""
}

func genName(r *rand.Rand) string { return []string{"a", "b", "c"}[r.Intn(3)] }

func genText(r *rand.Rand) string { return []string{"", "v", "x=y", "x"}[r.Intn(4)] }

// vpBuild puts the elements of a document together.
func vpBuild(n int, names [3]string, counts [3]int, inner, texts [6]string) []vpElem {
	elems := make([]vpElem, n)
	for i := range elems {
		elems[i].name, elems[i].count = names[i], counts[i]
		elems[i].inner = make([]vpLeaf, 2)
		for j := 0; j < 2; j++ {
			elems[i].inner[j] = vpLeaf{inner[2*i+j], texts[2*i+j]}
		}
	}
	return elems
}

func gen_X01_tree(r *rand.Rand) (int, [3]int, int, int, bool, [6]string) {
	var texts [6]string
	for i := range texts {
		texts[i] = genText(r)
	}
	return r.Intn(4), [3]int{r.Intn(3), r.Intn(3), r.Intn(3)}, r.Intn(3), r.Intn(3), r.Intn(2) == 0, texts
}

// Every node knows its name, depth, parent and neighbours, and is found by name
// from its parent, the first one and all of them in order.
//
//verif:bounded up to three elements with up to two elements in each, in every way their names can be alike
//verif:use encoding/xml.NewDecoder=sum_newDecoder
//verif:use (*encoding/xml.Decoder).Decode=sum_decode
func contract_X01_tree(n int, names [3]int, first, others int, alike bool, texts [6]string) {
	vpRequires(n >= 0 && n <= 3 && first >= 0 && first <= 2 && others >= 0 && others <= 2)
	for _, c := range names {
		vpRequires(c >= 0 && c <= 2)
	}
	all := [3]string{"a", "b", "c"}
	inner := [6]string{"a", "b", "a", "b", "a", "b"}
	if alike {
		inner = [6]string{"c", "c", "c", "c", "c", "c"}
		vpTrees(n, all, names, first, others, inner, texts)
		return
	}
	vpTrees(n, all, names, first, others, inner, texts)
}

func vpTrees(n int, all [3]string, names [3]int, first, others int, inner, texts [6]string) {
	vpCase(n, 0, 3, func(n int) {
		vpCase(first, 0, 2, func(first int) {
			vpCase(others, 0, 2, func(others int) {
				vpCase(names[0], 0, 2, func(a int) {
					vpCase(names[1], 0, 2, func(b int) {
						vpCase(names[2], 0, 2, func(c int) {
							vpTree(vpBuild(n, [3]string{all[a], all[b], all[c]}, [3]int{first, others, others}, inner, texts))
						})
					})
				})
			})
		})
	})
}

func vpTree(elems []vpElem) {
	xd := vpDocument(elems)
	root := &xd.Root
	depth := 1
	vpEnsures("root", root.Name == "root" && root.Level == 0 && root.Parent == nil && root.Owner == xd && root.Path() == "//root")
	names := make([]string, len(elems))
	for i, e := range elems {
		names[i] = e.name
	}
	vpSiblings(xd, root, names)
	if len(elems) > 0 {
		depth = 2
	}
	for i, e := range elems {
		names := make([]string, e.count)
		for j := range names {
			names[j] = e.inner[j].name
			depth = 3
		}
		node := root.GetChildNodes()[i]
		vpSiblings(xd, node, names)
		vpEnsures("path", node.Path() == "//root/"+e.name)
		if e.count > 0 {
			vpEnsures("path below", node.FirstChild().Path() == "//root/"+e.name+"/"+names[0])
			vpEnsures("content", node.FirstChild().Value() == e.inner[0].text)
		}
	}
	vpEnsures("depth", xd.MaxDepth() == depth)
}

func vpSiblings(xd *XmlDocument, parent *XmlNode, names []string) {
	nodes := parent.GetChildNodes()
	vpEnsures("children", len(nodes) == len(names) && parent.HasChildNodes() == (len(names) > 0))
	for i, node := range nodes {
		vpEnsures("name", node.Name == names[i])
		vpEnsures("place", node.Parent == parent && node.Level == parent.Level+1 && node.Owner == xd)
		if i == 0 {
			vpEnsures("first", parent.FirstChild() == node && node.Previous == nil)
		} else {
			vpEnsures("previous", node.Previous == nodes[i-1])
		}
		if i == len(nodes)-1 {
			vpEnsures("last", parent.LastChild() == node && node.Next == nil)
		} else {
			vpEnsures("next", node.Next == nodes[i+1])
		}
		// The first with this name and those that have it up to here.
		before, all := 0, 0
		for j, name := range names {
			if name == names[i] {
				if before == 0 && all == 0 {
					vpEnsures("found by name", parent.Item[names[i]] == nodes[j])
				}
				if j < i {
					before++
				}
				all++
			}
		}
		list := parent.Items[names[i]]
		vpEnsures("all found by name", len(list) == all)
		for k := 0; k <= i; k++ {
			if before == k {
				vpEnsures("found in order", k < len(list) && list[k] == node)
			}
		}
	}
	if len(names) == 0 {
		vpEnsures("none", parent.FirstChild() == nil && parent.LastChild() == nil && len(parent.Item) == 0 && len(parent.Items) == 0)
	}
}

// vpStep is a step of a path: a name and what else is asked for.
type vpStep struct {
	name       string
	ask        int
	key, value string
}

const (
	askNothing = iota
	askAttribute
	askAttributeValue
	askElement
	askElementValue
	askNever
)

var vpPaths = [...]struct {
	text  string
	steps [2]vpStep
	count int
}{
	{"a", [2]vpStep{{name: "a"}}, 1},
	{"*", [2]vpStep{{name: "*"}}, 1},
	{"a/b", [2]vpStep{{name: "a"}, {name: "b"}}, 2},
	{"*/b", [2]vpStep{{name: "*"}, {name: "b"}}, 2},
	{"a/*", [2]vpStep{{name: "a"}, {name: "*"}}, 2},
	{"a[@k]", [2]vpStep{{"a", askAttribute, "k", ""}}, 1},
	{"a[@*]", [2]vpStep{{"a", askAttribute, "*", ""}}, 1},
	{"a[@k='v']", [2]vpStep{{"a", askAttributeValue, "k", "v"}}, 1},
	{"*[@ k = 'v' ]", [2]vpStep{{"*", askAttributeValue, "k", "v"}}, 1},
	{"a[@*='v']", [2]vpStep{{"a", askAttributeValue, "*", "v"}}, 1},
	{"a[@k='']", [2]vpStep{{"a", askAttributeValue, "k", ""}}, 1},
	{"a[@k='x=y']", [2]vpStep{{"a", askAttributeValue, "k", "x=y"}}, 1},
	{"a[@*='x=y']", [2]vpStep{{"a", askAttributeValue, "*", "x=y"}}, 1},
	{"a[b]", [2]vpStep{{"a", askElement, "b", ""}}, 1},
	{"a[*]", [2]vpStep{{"a", askElement, "*", ""}}, 1},
	{"a[b='v']", [2]vpStep{{"a", askElementValue, "b", "v"}}, 1},
	{"*[*='v']", [2]vpStep{{"*", askElementValue, "*", "v"}}, 1},
	{"a[b='']", [2]vpStep{{"a", askElementValue, "b", ""}}, 1},
	{"a[b='x=y']", [2]vpStep{{"a", askElementValue, "b", "x=y"}}, 1},
	{"a[@k='v']/b", [2]vpStep{{"a", askAttributeValue, "k", "v"}, {name: "b"}}, 2},
	{"a[]", [2]vpStep{{"a", askNever, "", ""}}, 1},
	{"a[]/b", [2]vpStep{{"a", askNever, "", ""}, {name: "b"}}, 2},
	{"", [2]vpStep{{"a", askNever, "", ""}}, 1},
}

func (s vpStep) named(name string) bool { return s.name == "*" || s.name == name }

func (s vpStep) selects(e *vpElem) bool {
	if !s.named(e.name) {
		return false
	}
	switch s.ask {
	case askAttribute:
		return e.hasK || s.key == "*" && e.hasZ
	case askAttributeValue:
		return e.hasK && e.k == s.value || s.key == "*" && e.hasZ && e.z == s.value
	case askElement, askElementValue:
		for j := 0; j < e.count; j++ {
			l := e.inner[j]
			if (s.key == "*" || s.key == l.name) && (s.ask == askElement || l.text == s.value) {
				return true
			}
		}
		return false
	case askNever:
		return false
	}
	return true
}

func gen_X01_select(r *rand.Rand) (int, int, [3]string, int, [6]string, [6]string, [3]string, [3]string, [3]bool, [3]bool) {
	var names [3]string
	for i := range names {
		names[i] = genName(r)
	}
	var inner, texts [6]string
	for i := range inner {
		inner[i], texts[i] = genName(r), genText(r)
	}
	var k, z [3]string
	var hasK, hasZ [3]bool
	for i := range k {
		k[i], z[i], hasK[i], hasZ[i] = genText(r), genText(r), r.Intn(2) == 0, r.Intn(2) == 0
	}
	return r.Intn(len(vpPaths)), r.Intn(3), names, r.Intn(3), inner, texts, k, z, hasK, hasZ
}

// A path selects the nodes that its steps name, in the order of the document,
// from a node, from several and, after the name of the root, from the document.
//
//verif:bounded two elements with up to two elements in each, paths of up to two steps
//verif:use encoding/xml.NewDecoder=sum_newDecoder
//verif:use (*encoding/xml.Decoder).Decode=sum_decode
func contract_X01_select(path, from int, names [3]string, count int, inner, texts [6]string, k, z [3]string, hasK, hasZ [3]bool) {
	vpRequires(path >= 0 && path < len(vpPaths) && from >= 0 && from < 3 && count >= 0 && count <= 2)
	for _, s := range append(names[:], inner[:]...) {
		vpRequires(s != "")
	}
	vpCase(path, 0, len(vpPaths)-1, func(path int) {
		vpCase(count, 0, 2, func(count int) {
			vpCase(from, 0, 2, func(from int) {
				elems := vpBuild(2, names, [3]int{count, count, count}, inner, texts)
				for i := range elems {
					elems[i].k, elems[i].z, elems[i].hasK, elems[i].hasZ = k[i], z[i], hasK[i], hasZ[i]
				}
				vpSelect(elems, path, from)
			})
		})
	})
}

func vpSelect(elems []vpElem, path, from int) {
	xd := vpDocument(elems)
	p := vpPaths[path]
	var got []*XmlNode
	switch from {
	case 0:
		got = xd.Root.SelectNodes(p.text)
	case 1:
		got = xd.SelectNodes("//root/" + p.text)
	default:
		got = SelectNodes([]*XmlNode{&xd.Root}, p.text)
	}
	n := 0
	check := func(node *XmlNode) {
		vpEnsures("selected", n < len(got) && got[n] == node)
		n++
	}
	for i := range elems {
		if p.steps[0].selects(&elems[i]) {
			node := &xd.Root.ChildNodes[i]
			if p.count == 1 {
				check(node)
				continue
			}
			for j := 0; j < elems[i].count; j++ {
				if p.steps[1].named(elems[i].inner[j].name) {
					check(&node.ChildNodes[j])
				}
			}
		}
	}
	vpEnsures("nothing else selected", len(got) == n)
}

func sum_decodeElement(d *xml.Decoder, v any, start *xml.StartElement) error { return nil }

func gen_X01_attributes(r *rand.Rand) (string, string, string, string, string, string) {
	return genName(r), genText(r), genText(r), genName(r), genText(r), genText(r)
}

// Attributes are found by name, with their value and namespace.
//
//verif:bounded two attributes
//verif:use (*encoding/xml.Decoder).DecodeElement=sum_decodeElement
func contract_X01_attributes(a, va, sa, b, vb, sb string) {
	vpRequires(a != b)
	n := &XmlNode{}
	start := xml.StartElement{Name: xml.Name{Local: "n"}}
	start.Attr = []xml.Attr{{Name: xml.Name{Space: sa, Local: a}, Value: va}, {Name: xml.Name{Space: sb, Local: b}, Value: vb}}
	var d *xml.Decoder
	if vpConcrete() {
		d = xml.NewDecoder(strings.NewReader("<n></n>"))
		d.Token()
	}
	vpEnsures("read", n.UnmarshalXML(d, start) == nil)
	vpEnsures("all", len(n.Attributes) == 2 && len(n.AttributeNamespaces) == 2)
	v, ok := n.Attributes[a]
	vpEnsures("value", ok && v == va && n.Attributes[b] == vb)
	s, ok := n.AttributeNamespaces[a]
	vpEnsures("namespace", ok && s == sa && n.AttributeNamespaces[b] == sb)
}
