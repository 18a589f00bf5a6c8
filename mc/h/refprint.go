package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/openrdap/rdap"
)

// popts are the documented printer options.
type popts struct {
	omitNotices, omitRemarks, brief, briefLinks bool
	char                                        rune
	size                                        uint
}

func (o popts) String() string {
	return fmt.Sprintf("{omitNotices:%v omitRemarks:%v brief:%v briefLinks:%v indent:%q x %d}", o.omitNotices, o.omitRemarks, o.brief, o.briefLinks, o.char, o.size)
}

func (o popts) omits(group string) bool {
	switch group {
	case "notices":
		return o.omitNotices || o.brief
	case "remarks":
		return o.omitRemarks || o.brief
	case "conformance", "events", "port43", "variants", "securedns", "nested":
		return o.brief
	}
	return false
}

func printWith(o popts, obj any) string {
	var b bytes.Buffer
	p := &rdap.Printer{Writer: &b, IndentChar: o.char, IndentSize: o.size, OmitNotices: o.omitNotices, OmitRemarks: o.omitRemarks, BriefOutput: o.brief, BriefLinks: o.briefLinks}
	p.Print(obj)
	return b.String()
}

// node is one line of text output and the lines nested under it.
type node struct {
	label string // only in expected trees
	text  string
	kids  []*node
}

func leaf(label, value string) []*node {
	if value == "" {
		return nil
	}
	return []*node{{label: label, text: label + ": " + value}}
}

func scalar(kind string, d decoded) string {
	if !d.set {
		return ""
	}
	switch kind {
	case "s":
		return d.str
	case "b":
		return strconv.FormatBool(d.bit)
	}
	return strconv.FormatUint(d.num, 10)
}

// expectObject lists the lines under an object's heading.
func expectObject(typ string, d decoded, o popts) []*node {
	var out []*node
	t := schema[typ]
	for i := range t.members {
		me := &t.members[i]
		v := d.obj[me.field]
		if !v.set || o.omits(me.group) {
			continue
		}
		switch me.kind {
		case "vcard":
			for _, p := range v.any.([]refProp) {
				for _, s := range leaves(p.value) {
					out = append(out, leaf("vCard "+p.name, s)...)
				}
			}
		case "o":
			out = append(out, &node{label: me.label, text: me.label + ":", kids: expectObject(me.obj, v, o)})
		case "[]o":
			for _, e := range v.list {
				if me.obj == "link" && o.briefLinks {
					out = append(out, leaf(me.label, e.obj["Href"].str)...)
					continue
				}
				out = append(out, &node{label: me.label, text: me.label + ":", kids: expectObject(me.obj, e, o)})
			}
		case "[]s":
			for _, e := range v.list {
				out = append(out, leaf(me.label, e.str)...)
			}
		default:
			if me.label != "" {
				out = append(out, leaf(me.label, scalar(me.kind, v))...)
			}
		}
	}
	var names []string
	for n := range d.raw {
		if t.member(n) == nil {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		out = append(out, expectUnknown(n, d.raw[n])...)
	}
	return out
}

func expectUnknown(name string, v any) []*node {
	switch t := v.(type) {
	case nil:
		return leaf(name, "[unprintable value]")
	case bool:
		return leaf(name, strconv.FormatBool(t))
	case float64:
		return leaf(name, decimal(t))
	case string:
		return leaf(name, t)
	case []any:
		var out []*node
		for _, e := range t {
			out = append(out, expectUnknown(name, e)...)
		}
		return out
	case map[string]any:
		n := &node{label: name, text: name + ":"}
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			n.kids = append(n.kids, expectUnknown(k, t[k])...)
		}
		return []*node{n}
	}
	return nil
}

// parseText reads the indentation tree of text output.
func parseText(s string, o popts) (*node, string) {
	root := &node{}
	if s == "" {
		return root, ""
	}
	if !strings.HasSuffix(s, "\n") {
		return nil, "the output does not end with a line feed"
	}
	stack := []*node{root}
	char, size := o.char, int(o.size)
	if char == 0 {
		char = ' '
	}
	if size == 0 {
		size = 2
	}
	for i, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		n := 0
		for strings.HasPrefix(l, string(char)) {
			l = l[len(string(char)):]
			n++
		}
		if n%size != 0 {
			return nil, fmt.Sprintf("line %d (%q) is indented by %d, not a multiple of %d", i+1, l, n, size)
		}
		d := n / size
		if d+1 > len(stack) {
			return nil, fmt.Sprintf("line %d (%q) is indented to level %d under level %d", i+1, l, d, len(stack)-2)
		}
		x := &node{text: l}
		stack[d].kids = append(stack[d].kids, x)
		stack = append(stack[:d+1], x)
	}
	return root, ""
}

// diffTree compares siblings: per label the same lines in the same order; labels in any order.
func diffTree(path string, want, got []*node) string {
	order := map[string][]*node{}
	var labels []string
	for _, w := range want {
		if order[w.label] == nil {
			labels = append(labels, w.label)
		}
		order[w.label] = append(order[w.label], w)
	}
	sort.Slice(labels, func(i, j int) bool { return len(labels[i]) > len(labels[j]) })
	for _, g := range got {
		found := ""
		ok := false
		for _, l := range labels {
			if strings.HasPrefix(g.text, l+":") && (len(g.text) == len(l)+1 || g.text[len(l)+1] == ' ') {
				found, ok = l, true
				break
			}
		}
		if !ok || len(order[found]) == 0 {
			return fmt.Sprintf("%s: the line %q is not expected there", path, g.text)
		}
		w := order[found][0]
		order[found] = order[found][1:]
		if w.text != g.text {
			return fmt.Sprintf("%s: the line %q should be %q", path, g.text, w.text)
		}
		if m := diffTree(path+"/"+w.text, w.kids, g.kids); m != "" {
			return m
		}
	}
	for _, l := range labels {
		if len(order[l]) > 0 {
			return fmt.Sprintf("%s: no line %q", path, order[l][0].text)
		}
	}
	return ""
}

// checkPrint prints a decoded response and compares with the reference tree.
func checkPrint(c *Ctx, root int, body string, obj any, want decoded, o popts) string {
	out := printWith(o, obj)
	c.Step()
	got, m := parseText(out, o)
	if m == "" {
		typ := rootTypes[root].typ
		exp := []*node{{label: schema[typ].heading, text: schema[typ].heading + ":", kids: expectObject(typ, want, o)}}
		m = diffTree("", exp, got.kids)
	}
	if m != "" {
		c.Fail("%s\noptions %v\nresponse %s\noutput\n%s", m, o, body, clip(out, 3000))
	}
	return out
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func decodeBody(c *Ctx, body string) any {
	o, err := rdap.NewDecoder([]byte(body)).Decode()
	if err != nil {
		c.Fail("decoding fails: %v\n%s", err, body)
	}
	return o
}

// fullObj is an object with every member, arrays of objects holding two elements at the first level.
func fullObj(t *objType, tok string, depth, width int) string {
	var ms []string
	for i := range t.members {
		me := &t.members[i]
		tk := tok + "." + me.json
		var v string
		switch {
		case me.kind == "o" && depth > 0:
			v = fullObj(schema[me.obj], tk, depth-1, 1)
		case me.kind == "[]o" && depth > 0:
			var es []string
			for k := 0; k < width; k++ {
				es = append(es, fullObj(schema[me.obj], fmt.Sprintf("%s%d", tk, k), depth-1, 1))
			}
			v = "[" + strings.Join(es, ",") + "]"
		case me.kind == "o" || me.kind == "[]o":
			continue
		default:
			v = good(me, tk, 0)
		}
		ms = append(ms, fmt.Sprintf("%q:%s", me.json, v))
	}
	ms = append(ms, fmt.Sprintf(`"x_%s":%q,"a_ext":{"k":[%q,{"z":%q}],"j":5}`, t.name, tok+".x", tok+".k", tok+".z"))
	return "{" + strings.Join(ms, ",") + "}"
}

// fullRoot is a whole response of a root type.
func fullRoot(root, depth, width int) string {
	r := rootTypes[root]
	b := fullObj(schema[r.typ], r.typ, depth, width)
	if r.key == "objectClassName" {
		b = strings.Replace(b, fmt.Sprintf("%q:%q", "objectClassName", r.typ+".objectClassName"), fmt.Sprintf("%q:%s", r.key, r.val), 1)
	}
	if (r.key != "" && r.key != "objectClassName") && schema[r.typ].member(r.key) != nil && depth == 0 && r.key != "errorCode" {
		b = strings.TrimSuffix(b, "}") + fmt.Sprintf(",%q:%s}", r.key, r.val)
	}
	return b
}
