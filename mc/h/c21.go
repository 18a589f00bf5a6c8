package main

import (
	"fmt"
	"strings"
)

// printDoc decodes and prints a response whose members are given, in several memory orders.
func printDoc(c *Ctx, p objPath, body, bodyRev string, o popts, rots []int) {
	want, _, _ := refDecode("o", rootTypes[p.root].typ, parseJSON(body))
	first := ""
	for i, r := range rots {
		rotate(r)
		b := body
		if i%2 == 1 {
			b = bodyRev
		}
		obj := decodeBody(c, b)
		if i == 0 {
			first = checkPrint(c, p.root, body, obj, want, o)
			if again := printWith(o, obj); again != first {
				c.Fail("printing the same object twice gives different output\n%s\n%s\n---\n%s", body, clip(first, 2000), clip(again, 2000))
			}
			continue
		}
		if out := printWith(o, obj); out != first {
			c.Fail("the output depends on member or map order\n%s\n%s\n---\n%s", body, clip(first, 2000), clip(out, 2000))
		}
	}
	rotate(0)
}

func init() {
	var paths, pairTypes []objPath
	var longs, chars []string
	vals := []string{`"text"`, `"a: b"`, "5", "1.5", "true", "false", "null", "0", `""`, `[]`, `{}`, `["p",6,["q",[false]],null,""]`, `{"b":"x","a":["y",{"c":true}],"n":null}`, `[{"k":1},{"k":2},"s"]`, `["dup","dup","x","dup"]`, `[1,1,true,true,null,null]`, `[["d"],["d"],{"k":"d"},{"k":"d"}]`, `{"b":"same","a":"same","c":["same","same"]}`, `{"o":{"o":{"o":{"o":"deep"}}}}`, "12345678901234567890", "1e300", `"  padded  "`, `"a\tb"`, `"日本語"`, `"%s%d"`}
	for _, n := range []int{6, 9, 20} {
		var o []string
		for i := 0; i < n; i++ {
			o = append(o, fmt.Sprintf(`"k%02d":"v%d"`, (i*7)%n, i))
		}
		vals = append(vals, "{"+strings.Join(o, ",")+"}", "[1,{"+strings.Join(o, ",")+"}]")
	}
	// values that are long or deep: every kind of container, with elements beyond any fixed number
	var big []string
	for _, n := range []int{33, 65, 129, 300, 1100} {
		var e, o []string
		for i := 0; i < n; i++ {
			e = append(e, fmt.Sprintf(`"e%d"`, i))
			o = append(o, fmt.Sprintf(`{"k":%d}`, i))
		}
		big = append(big, "["+strings.Join(e, ",")+"]", "["+strings.Join(o, ",")+"]")
	}
	for _, n := range []int{8, 17, 40, 130} {
		big = append(big,
			strings.Repeat(`{"o":`, n)+`"deep"`+strings.Repeat("}", n),
			strings.Repeat(`{"m":"x","o":`, n)+`"deep"`+strings.Repeat(`,"p":1}`, n),
			strings.Repeat(`[`, n)+`"deep"`+strings.Repeat("]", n),
			strings.Repeat(`[1,{"o":`, n)+`"deep"`+strings.Repeat("}]", n))
	}
	names := []string{"x_ext", "a", "zzz", "Handle", "port 43", "", "Link", "Entity", "a: b", "%s", "ünï", "Domain Name"}
	register(&Check{
		ID:   "C21",
		Rule: "for every path from a response to an object inside it: each member alone, all members together, each member with every JSON value of a list, each unknown name with every JSON value of a list; every text member, unknown value and unknown name (paths to depth 1) with every text of a list of contents that careless code changes, long texts and every Unicode character; for every object type all pairs of members, long and deep unknown values, long lists in every list member and objects of one type nested in one another; fully populated objects nested to the depth bound; brief links off and on; the output's indentation tree must equal the reference tree built from a hand-written table of labels; the same bytes for several map rotations and member orders",
		Setup: func(c *Ctx) {
			paths = objPaths(2)
			longs = longTexts(Pick(c, 70000, 1<<20))
			chars = charTexts(2048, breaksLine)
			if c.Thorough() {
				paths = objPaths(3)
			}
			seen := map[string]bool{}
			for _, p := range objPaths(2) {
				if t := p.target(); !seen[t.name] {
					seen[t.name] = true
					pairTypes = append(pairTypes, p)
				}
			}
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"paths": len(paths), "path_depth": Pick(c, 2, 3), "values": len(vals), "unknown_names": len(names), "full_depth": Pick(c, 3, 4), "rotations": Pick(c, 3, 6), "texts": len(textZoo), "long_texts": len(longs), "character_texts": len(chars), "long_and_deep_values": len(big)}
		},
		Assumptions: []string{"the order of differently labelled lines of one object is not constrained, only that it is the same every time", "JSON null in an unknown member is shown as \"[unprintable value]\"", "unknown names do not begin with the indentation character"},
		Run: func(c *Ctx) {
			rots := []int{0, 3, 5}
			if c.Thorough() {
				rots = []int{0, 3, 5, 1, 7, 2}
			}
			o := popts{briefLinks: c.Bool("brief links")}
			switch c.Choose("mode", 7) {
			case 0: // one member alone or all members, at every path
				p := Of(c, "path", paths)
				t := p.target()
				c.Shard()
				mi := c.Choose("member", len(t.members)+1)
				if mi < len(t.members) && len(p.steps) == 0 && t.members[mi].json == "objectClassName" {
					return
				}
				c.State(p.String(), mi)
				var ms []kv
				if mi == len(t.members) {
					ms = goodKV(t, "t", 2-len(p.steps)/2)
				} else {
					ms = []kv{{t.members[mi].json, good(&t.members[mi], "t", 2-len(p.steps)/2)}}
				}
				if len(p.steps) == 0 {
					ms = p.discriminate(ms, "")
				}
				printDoc(c, p, p.wrap(render(ms, false), false, true), p.wrap(render(ms, true), true, true), o, rots)
			case 1: // one member, every value
				p := Of(c, "path", paths)
				if !c.Thorough() && len(p.steps) > 1 && o.briefLinks {
					return
				}
				c.Shard()
				t := p.target()
				mi := c.Choose("member", len(t.members)+1)
				nm := []string{}
				if mi < len(t.members) {
					nm = append(nm, t.members[mi].json)
					if len(p.steps) == 0 && (nm[0] == "objectClassName" || nm[0] == rootTypes[p.root].key) {
						return
					}
				} else {
					nm = names
				}
				name := Of(c, "name", nm)
				c.State(p.String(), name)
				depth := 0 // the other members are there too, nested objects included where the path is short
				if len(p.steps) <= 1 {
					depth = 1
				}
				for _, v := range vals {
					ms := setKV(goodKV(t, "t", depth), name, v)
					if len(p.steps) == 0 {
						ms = p.discriminate(ms, "")
					}
					printDoc(c, p, p.wrap(render(ms, false), false, false), p.wrap(render(ms, true), true, false), o, rots[:2])
				}
			case 2: // pairs of members
				p := Of(c, "type", pairTypes)
				c.Shard()
				t := p.target()
				i := c.Choose("first", len(t.members))
				j := c.Choose("second", len(t.members))
				if j <= i {
					return
				}
				c.State(t.name, i, j)
				var ms []kv
				for _, k := range []int{i, j} {
					if n := t.members[k].json; len(p.steps) > 0 || n != "objectClassName" {
						ms = append(ms, kv{n, good(&t.members[k], "t", 2)})
					}
				}
				if len(p.steps) == 0 {
					if r := rootTypes[p.root]; r.key != "" {
						has := false
						for _, m := range ms {
							has = has || m.k == r.key
						}
						if !has {
							ms = p.discriminate(ms, "")
						}
					}
				}
				printDoc(c, p, p.wrap(render(ms, false), false, false), p.wrap(render(ms, true), true, false), o, rots)
			case 3: // several unknown members at once
				p := Of(c, "type", pairTypes)
				c.Shard()
				t := p.target()
				k := c.Choose("value", len(vals))
				ms := goodKV(t, "t", 1)
				many := names
				if c.Bool("many") {
					for i := 0; i < 20; i++ {
						many = append(many[:len(many):len(many)], fmt.Sprintf("u%02d", (i*7)%20))
					}
				}
				for i, n := range many {
					ms = setKV(ms, n, vals[(i+k)%len(vals)])
				}
				if len(p.steps) == 0 {
					ms = p.discriminate(ms, "")
				}
				c.State(t.name, k)
				printDoc(c, p, p.wrap(render(ms, false), false, true), p.wrap(render(ms, true), true, true), o, []int{0, 1, 2, 3, 4, 5, 6, 7})
			case 5: // texts
				p := Of(c, "path", objPaths(1))
				if o.briefLinks && !(len(p.steps) == 1 && p.steps[0].json == "links") {
					return
				}
				c.Shard()
				t := p.target()
				mi := c.Choose("member", len(t.members)+1)
				name := "x_ext"
				arr := false
				if mi < len(t.members) {
					m := &t.members[mi]
					name = m.json
					arr = m.kind == "[]s"
					if m.kind != "s" && !arr || len(p.steps) == 0 && name == "objectClassName" {
						return
					}
				}
				texts := append(append([]string{}, textZoo...), longs...)
				if len(p.steps) == 0 && (name == "handle" || name == "x_ext" || name == "title") {
					texts = append(texts, chars...)
				}
				c.State(p.String(), name)
				for _, x := range texts {
					v := jq(x)
					if arr {
						v = "[" + v + `,"b",` + v + "]"
					}
					ms := setKV(goodKV(t, "t", 0), name, v)
					if mi == len(t.members) && t.member(x) == nil && x[0] != ' ' && len(x) < 100 {
						ms = append(ms, kv{x, "[" + v + `,{"k":` + v + "}]"})
					}
					if len(p.steps) == 0 {
						ms = p.discriminate(ms, "")
					}
					b := p.wrap(render(ms, false), false, false)
					printDoc(c, p, b, b, o, rots[:1])
				}
			case 6: // long and deep values; long lists of objects; objects in objects
				p := Of(c, "type", pairTypes)
				c.Shard()
				t := p.target()
				mi := c.Choose("member", len(t.members)+2)
				var values []string
				name := "x_ext"
				switch {
				case mi == len(t.members):
					values = big
				case mi > len(t.members): // objects of the same type inside one another
					for _, m := range t.members {
						if m.kind == "[]o" && m.obj == t.name {
							name = m.json
							for _, n := range []int{10, 36, Pick(c, 36, 100)} {
								values = append(values, strings.Repeat(`[{"handle":"in","`+name+`":`, n)+`[{"handle":"inmost"}]`+strings.Repeat(`,"x_ext":["u",{"v":1}]}]`, n))
							}
						}
					}
				case t.members[mi].kind == "[]s":
					name = t.members[mi].json
					for _, v := range big {
						if strings.HasPrefix(v, `["e`) {
							values = append(values, v)
						}
					}
				case t.members[mi].kind == "[]o":
					name = t.members[mi].json
					o := render(goodKV(schema[t.members[mi].obj], "t", 0), false)
					for _, n := range []int{33, 65, 129, 300} {
						values = append(values, "["+strings.TrimSuffix(strings.Repeat(o+",", n), ",")+"]")
					}
				}
				c.State(t.name, name)
				for _, v := range values {
					ms := setKV(goodKV(t, "t", 0), name, v)
					if len(p.steps) == 0 {
						ms = p.discriminate(ms, "")
					}
					b := p.wrap(render(ms, false), false, false)
					printDoc(c, p, b, b, o, rots[:2])
				}
			case 4: // everything
				r := c.Choose("root", len(rootTypes))
				d := c.Choose("depth", Pick(c, 4, 5))
				c.Shard()
				if d >= 4 && rootTypes[r].typ != "entity" && rootTypes[r].typ != "domain" {
					return
				}
				b := fullRoot(r, d, 2)
				c.State(fmt.Sprint(r, d))
				printDoc(c, objPath{root: r}, b, b, o, rots[:2])
			}
		},
	})
}
