package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/openrdap/rdap"
)

// JSON values of every kind, simplest first.
var anyValues = []string{
	"null", `"text"`, "5", "true", "{}", "[]", `["a"]`, "1.5", "-1", `""`, "false", "0", "300", "70000", "5000000000", "1e300", `"12"`, `"true"`, `"0"`, `"-1"`, `"1.5"`,
	`["a",5,null,true,{},["b"],"c"]`, `[null]`, `[{}]`, `[[]]`, `{"x":1}`, `[{"title":"t","handle":"h"},5,{"title":"u","handle":"i"}]`, `[5,[],"x",null]`, `{"title":["x"],"handle":{},"status":"s","links":[{"href":5},7]}`,
	`["vcard",[["fn",{},"text","N"]]]`, `["vcard",[["fn",{},"text"]]]`, `["vcard"]`, `"\u0000\n"`, "256", "65536", "4294967296", "-0", `"18446744073709551616"`, "1e19",
	`[{"lang":5,"handle":["x"],"status":["a",{"b":1},"c"],"unknownX":{"deep":[1,2,{"x":null}]}}]`,
}

var fewValues = []string{"null", `"text"`, "5", "{}", `["a",5,{}]`, `[{"title":"t","handle":5},7]`, "true", `[[]]`}

var unknownNames = []string{"x_ext", "Handle", "HANDLE", "ldhname", "LDHName", "port 43", "decodeData", "DecodeData", "common", "Common", "Lang", "conformance", "vCard", "vcard", "", "handle ", "notice", "publicIDs", "hrefLang", "eventaction", "action", "ds", "keys", "isKnown", "\u212aey"}

// objPath is a way from a response to an object inside it.
type objPath struct {
	root  int
	steps []*member
}

func (p objPath) target() *objType {
	if len(p.steps) == 0 {
		return schema[rootTypes[p.root].typ]
	}
	return schema[p.steps[len(p.steps)-1].obj]
}

func (p objPath) String() string {
	s := rootTypes[p.root].typ
	for _, m := range p.steps {
		s += "." + m.json
	}
	return s
}

// objPaths lists all paths up to a depth.
func objPaths(depth int) []objPath {
	var out []objPath
	cur := []objPath{}
	for i := range rootTypes {
		cur = append(cur, objPath{root: i})
	}
	for d := 0; ; d++ {
		out = append(out, cur...)
		if d == depth {
			return out
		}
		var next []objPath
		for _, p := range cur {
			t := p.target()
			for i := range t.members {
				if m := &t.members[i]; m.kind == "o" || m.kind == "[]o" {
					next = append(next, objPath{p.root, append(append([]*member{}, p.steps...), m)})
				}
			}
		}
		cur = next
	}
}

type kv struct{ k, v string }

func render(ms []kv, rev bool) string {
	var out []string
	for i := range ms {
		m := ms[i]
		if rev {
			m = ms[len(ms)-1-i]
		}
		out = append(out, jq(m.k)+":"+m.v)
	}
	return "{" + strings.Join(out, ",") + "}"
}

// goodKV lists the members of a well-formed object.
func goodKV(t *objType, tok string, depth int) []kv {
	var out []kv
	for i := range t.members {
		me := &t.members[i]
		if depth <= 0 && (me.kind == "o" || me.kind == "[]o") {
			continue
		}
		out = append(out, kv{me.json, good(me, tok+"."+me.json, depth)})
	}
	return out
}

func setKV(ms []kv, k, v string) []kv {
	for i := range ms {
		if ms[i].k == k {
			ms[i].v = v
			return ms
		}
	}
	return append(ms, kv{k, v})
}

// wrap places the object text at the end of the path inside otherwise good objects.
func (p objPath) wrap(obj string, rev, siblings bool) string {
	for i := len(p.steps) - 1; i >= 0; i-- {
		m := p.steps[i]
		v := obj
		if m.kind == "[]o" {
			v = "[" + obj + "]"
			if siblings {
				v = "[" + goodObj(schema[m.obj], "before", 0) + "," + obj + "," + goodObj(schema[m.obj], "after", 0) + "]"
			}
		}
		var t *objType
		if i == 0 {
			t = schema[rootTypes[p.root].typ]
		} else {
			t = schema[p.steps[i-1].obj]
		}
		ms := setKV(goodKV(t, fmt.Sprintf("w%d", i), 0), m.json, v)
		if i == 0 {
			ms = p.discriminate(ms, m.json)
		}
		obj = render(ms, rev)
	}
	return obj
}

// discriminate makes the members those of a whole response of the root type.
func (p objPath) discriminate(ms []kv, mutated string) []kv {
	r := rootTypes[p.root]
	if r.key == "" || r.key == mutated {
		return ms
	}
	return setKV(ms, r.key, r.val)
}

// objectAt decodes body and compares everything with the reference.
func checkDecode(c *Ctx, p objPath, body string) any {
	o, err := rdap.NewDecoder([]byte(body)).Decode()
	c.Step()
	if err != nil {
		c.Fail("decoding fails: %v\n%s", err, body)
	}
	want, _, _ := refDecode("o", rootTypes[p.root].typ, parseJSON(body))
	rv := reflect.ValueOf(o)
	if !strings.EqualFold(rv.Elem().Type().Name(), goTypeName[rootTypes[p.root].typ]) {
		c.Fail("decodes to %T, want %s\n%s", o, goTypeName[rootTypes[p.root].typ], body)
	}
	if m := compareDecoded("response", "o", rootTypes[p.root].typ, want, rv.Elem()); m != "" {
		c.Fail("%s\n%s", m, body)
	}
	return o
}

var goTypeName = map[string]string{"domain": "Domain", "entity": "Entity", "nameserver": "Nameserver", "autnum": "Autnum", "ip": "IPNetwork", "error": "Error", "help": "Help", "domains": "DomainSearchResults", "nameservers": "NameserverSearchResults", "entitiesr": "EntitySearchResults"}

func init() {
	var shallow, deep []objPath
	var pairTypes []objPath
	var longs, chars []string
	register(&Check{
		ID:   "C17",
		Rule: "for every path from a response to an object inside it (depth bound), every member of that object and every unknown name is given every JSON value of a fixed list, with all other members good; every pair of members of every object type is given every pair from a short list; both member orders, several map rotations; every text member and unknown name (paths to depth 1) with every text of a list of contents that careless code changes, texts of lengths up to 70,000 and every Unicode character; every list member and unknown lists of up to thousands of elements, usable and not; the whole decoded tree, raw values, unknown-member lists and notes are compared with a reference decoder over a hand-written schema",
		Setup: func(c *Ctx) {
			shallow = objPaths(Pick(c, 2, 2))
			longs = longTexts(Pick(c, 70000, 1<<20))
			chars = charTexts(2048, nil)
			seen := map[string]bool{}
			for _, p := range objPaths(2) {
				if t := p.target(); !seen[t.name] {
					seen[t.name] = true
					pairTypes = append(pairTypes, p)
				}
			}
			for _, p := range objPaths(3) {
				if len(p.steps) >= 3 {
					deep = append(deep, p)
				}
			}
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"object_types": len(schema), "paths_full": len(shallow), "paths_deep": len(deep), "depth": 3, "values": len(anyValues), "unknown_names": len(unknownNames), "pair_values": len(fewValues), "texts": len(textZoo), "long_texts": len(longs), "character_texts": len(chars)}
		},
		Assumptions: []string{"member names are unique within one JSON object (duplicates: the last wins)", "texts are valid UTF-8"},
		Run: func(c *Ctx) {
			mode := c.Choose("mode", 6)
			switch mode {
			case 0, 1: // one member of one object, at every path
				p := Of(c, "path", [][]objPath{shallow, deep}[mode])
				t := p.target()
				mi := c.Choose("member", len(t.members)+1)
				if mode == 0 {
					c.Shard()
				}
				vals := anyValues
				if mode == 1 {
					vals = Pick(c, fewValues[:4], fewValues)
				}
				names := []string{}
				if mi == len(t.members) {
					names = unknownNames
					if mode == 1 {
						names = Pick(c, unknownNames[:1], unknownNames[:3])
					}
				} else {
					names = append(names, t.members[mi].json)
				}
				if mode == 1 {
					c.Shard()
				}
				name := Of(c, "name", names)
				if len(p.steps) == 0 && name == "objectClassName" {
					return
				}
				var rev bool
				if c.Thorough() {
					rev = c.Bool("reverse")
					rotate(c.Choose("rotation", 4) * 5)
				} else if mode == 0 {
					rev = c.Bool("reverse and rotate")
					if rev {
						rotate(5)
					}
				}
				c.State(p.String(), name)
				for _, v := range vals {
					ms := setKV(goodKV(t, "t", 1-len(p.steps)/2), name, v)
					if len(p.steps) == 0 {
						ms = p.discriminate(ms, name)
					}
					checkDecode(c, p, p.wrap(render(ms, rev), rev, len(p.steps) <= 2))
				}
			case 2: // two members
				p := Of(c, "type", pairTypes)
				t := p.target()
				i := c.Choose("first", len(t.members))
				c.Shard()
				j := c.Choose("second", len(t.members))
				if j <= i {
					return
				}
				rotate(c.Choose("rotation", 2) * 3)
				rev := c.Bool("reverse")
				if len(p.steps) == 0 && (t.members[i].json == "objectClassName" || t.members[j].json == "objectClassName") {
					return
				}
				c.State(t.name, i, j)
				for _, v := range fewValues {
					for _, w := range fewValues {
						ms := goodKV(t, "t", 0)
						ms = setKV(ms, t.members[i].json, v)
						ms = setKV(ms, t.members[j].json, w)
						if len(p.steps) == 0 {
							r := rootTypes[p.root]
							if r.key != t.members[i].json && r.key != t.members[j].json {
								ms = p.discriminate(ms, "")
							}
						}
						checkDecode(c, p, p.wrap(render(ms, rev), rev, false))
					}
				}
			case 5: // long lists, with many unusable elements
				p := Of(c, "type", pairTypes)
				c.Shard()
				t := p.target()
				mi := c.Choose("member", len(t.members)+1)
				name := "x_ext"
				el := `"e"`
				if mi < len(t.members) {
					m := &t.members[mi]
					name = m.json
					switch m.kind {
					case "[]s":
					case "[]o":
						el = render(goodKV(schema[m.obj], "t", 0), false)
					default:
						return
					}
				}
				c.State("lists", t.name, name)
				for _, n := range []int{7, 9, 17, 33, 65, 129, 257, 1025, Pick(c, 5000, 70000)} {
					for _, kind := range []int{0, 1, 2} {
						if n > 1025 && (el != `"e"` || kind == 2) {
							continue // long enough
						}
						var es []string
						for i := 0; i < n; i++ {
							switch {
							case kind == 0:
								es = append(es, el)
							case kind == 1:
								es = append(es, []string{"5", el, "[]", "null", el, "{}", "true", `"x"`}[i%8])
							case i == n-1:
								es = append(es, el)
							default:
								es = append(es, "[]")
							}
						}
						ms := setKV(goodKV(t, "t", 0), name, "["+strings.Join(es, ",")+"]")
						if len(p.steps) == 0 {
							ms = p.discriminate(ms, name)
						}
						checkDecode(c, p, p.wrap(render(ms, false), false, false))
					}
				}
			case 4: // texts
				p := Of(c, "path", objPaths(1))
				c.Shard()
				t := p.target()
				mi := c.Choose("member", len(t.members)+1)
				name := "x_ext"
				arr := false
				if mi < len(t.members) {
					m := &t.members[mi]
					name = m.json
					arr = m.kind == "[]s"
					if m.kind != "s" && !arr || len(p.steps) == 0 && name == "objectClassName" {
						return
					}
				}
				texts := append(append([]string{}, textZoo...), longs...)
				if len(p.steps) == 0 && (name == "handle" || name == "x_ext" || name == "title") {
					texts = append(texts, chars...)
				}
				c.State(p.String(), name)
				for _, x := range texts {
					v := jq(x)
					if arr {
						v = "[" + v + `,"b",` + v + "]"
					}
					ms := setKV(goodKV(t, "t", 0), name, v)
					if mi == len(t.members) && t.member(x) == nil && !strings.HasPrefix(x, "xn--") && x != "handle" && len(x) < 100 {
						ms = append(ms, kv{x, v})
					}
					if len(p.steps) == 0 {
						ms = p.discriminate(ms, name)
					}
					checkDecode(c, p, p.wrap(render(ms, false), false, false))
				}
			case 3: // every member bad at once, and subsets of members present
				p := Of(c, "type", pairTypes)
				c.Shard()
				t := p.target()
				rev := c.Bool("reverse")
				rotate(c.Choose("rotation", 8))
				k := c.Choose("value", len(anyValues))
				c.State(t.name, k)
				for step := 0; step < 3; step++ {
					var ms []kv
					for i := range t.members {
						switch step {
						case 0:
							ms = append(ms, kv{t.members[i].json, anyValues[k]})
						case 1:
							ms = append(ms, kv{t.members[i].json, anyValues[(k+i)%len(anyValues)]})
						case 2:
							if (i+k)%2 == 0 {
								ms = append(ms, kv{t.members[i].json, good(&t.members[i], "t", 1)})
							}
						}
					}
					for i, n := range unknownNames {
						ms = setKV(ms, n, anyValues[(k+i)%len(anyValues)])
					}
					if len(p.steps) == 0 {
						var m2 []kv
						for _, m := range ms {
							if m.k != "objectClassName" {
								m2 = append(m2, m)
							}
						}
						ms = m2
						if r := rootTypes[p.root]; r.key == "objectClassName" || t.member(r.key) == nil || step == 2 {
							ms = p.discriminate(ms, "")
						}
					}
					checkDecode(c, p, p.wrap(render(ms, rev), rev, true))
				}
			}
		},
	})
}
