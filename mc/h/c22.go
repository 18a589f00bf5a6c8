package main

import "fmt"

func init() {
	chars := []rune{0, ' ', '\t', '.', 'é', '界'}
	sizes := []uint{0, 1, 2, 3, 8, 17, 65}
	register(&Check{
		ID:   "C22",
		Rule: "every root type, fully populated at every nesting level up to the depth bound, and every path to a nested object with each member alone there beside unknown values of every kind, or with an unusual value beside all others, x every combination of the four omission options x every indentation character and size of a list; responses nested up to 130 (thorough: 260) levels deep through entities, networks, unknown objects and unknown arrays; output tree compared with the reference tree filtered by the options; the same tree for every indentation",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"roots": len(rootTypes), "full_depth": Pick(c, 2, 3), "omission_combinations": 16, "indentations": len(chars) * len(sizes), "path_depth": Pick(c, 2, 3)}
		},
		Assumptions: []string{"brief output also leaves out an entity's nested networks, autnums and entities"},
		Run: func(c *Ctx) {
			mode := c.Choose("mode", 4)
			var body string
			var root int
			if mode == 0 {
				root = c.Choose("root", len(rootTypes))
				body = fullRoot(root, c.Choose("depth", Pick(c, 3, 4)), 2)
				c.Shard()
			} else if mode == 2 { // deep nesting
				which := c.Choose("nesting", 4)
				n := Of(c, "levels", []int{4, 8, 12, 13, 15, 16, 17, 31, 33, 64, 65, 100, Pick(c, 130, 260)})
				c.Shard()
				root, body = deepRoot(which, n)
			} else if mode == 3 { // each member with an unusual value, all others present
				p := Of(c, "path", objPaths(Pick(c, 1, 2)))
				t := p.target()
				root = p.root
				me := &t.members[c.Choose("member", len(t.members))]
				c.Shard()
				v := Of(c, "value", []string{"false", "0", `""`, "null", "[]", "{}", `"x"`, "[{}]", "-1"})
				if len(p.steps) == 0 && (me.json == "objectClassName" || me.json == rootTypes[root].key) {
					return
				}
				ms := setKV(goodKV(t, "t", 2), me.json, v)
				if len(p.steps) == 0 {
					ms = p.discriminate(ms, "")
				}
				body = p.wrap(render(ms, false), false, true)
			} else {
				ps := objPaths(Pick(c, 2, 3))
				p := Of(c, "path", ps)
				t := p.target()
				root = p.root
				i := c.Choose("member", len(t.members))
				c.Shard()
				me := &t.members[i]
				if len(p.steps) == 0 && me.json == "objectClassName" {
					return
				}
				ms := []kv{{me.json, good(me, "t", 2)}, {"x_ext", `"kept"`}, {"x_all", `{"t":true,"f":false,"n":null,"z":0,"m":-1.5,"e":"","a":[true,false,null,0,"","links",[],{},[[false]]],"o":{},"links":[{"href":"u"}],"remarks":[{"title":"x"}],"notices":"n","events":false,"lang":"en"}`}, {"x_f", "false"}, {"x_n", "null"}, {"x_0", "0"}}
				if len(p.steps) == 0 {
					ms = p.discriminate(ms, "")
					if rootTypes[root].key == me.json && me.json != "errorCode" {
						ms = setKV(ms, me.json, good(me, "t", 2))
					}
				}
				body = p.wrap(render(ms, false), false, true)
			}
			obj := decodeBody(c, body)
			want, _, _ := refDecode("o", rootTypes[root].typ, parseJSON(body))
			for k := 0; k < 16; k++ {
				o := popts{omitNotices: k&1 > 0, omitRemarks: k&2 > 0, brief: k&4 > 0, briefLinks: k&8 > 0}
				if mode == 1 || mode == 3 {
					o.char, o.size = chars[k%len(chars)], sizes[k%len(sizes)]
					checkPrint(c, root, body, obj, want, o)
					continue
				}
				if mode == 2 {
					for i := 0; i < 4; i++ {
						o.char, o.size = chars[(k+i)%len(chars)], sizes[i]
						checkPrint(c, root, body, obj, want, o)
					}
					continue
				}
				for _, ch := range chars {
					for _, sz := range sizes {
						o.char, o.size = ch, sz
						checkPrint(c, root, body, obj, want, o)
					}
				}
				c.State(fmt.Sprint(root, o))
			}
			c.State(root, mode, len(body))
		},
	})
}

// deepRoot is a response with n levels of nesting, and something to print or omit at each.
func deepRoot(which, n int) (root int, body string) {
	for i, r := range rootTypes {
		if r.typ == []string{"entity", "entity", "domain", "domain"}[which] {
			root = i
		}
	}
	switch which {
	case 0, 1: // entities in entities; entities and networks in turn
		for i := n; i >= 0; i-- {
			next := ""
			kind, cls := "entities", "entity"
			if which == 1 && i%2 == 0 {
				kind = "networks"
			}
			if which == 1 && i%2 == 1 {
				cls = "ip network"
			}
			if i < n {
				next = fmt.Sprintf(`,"%s":[%s,{"handle":"S%d"}]`, kind, body, i)
			}
			body = fmt.Sprintf(`{"objectClassName":%q,"handle":"H%d","remarks":[{"title":"T%d","links":[{"href":"u%d","rel":"self"}]}],"x_%d":{"a":[%d]}%s}`, cls, i, i, i, i, i, next)
		}
	default: // unknown objects; unknown arrays
		body = `"end"`
		for i := n; i > 0; i-- {
			if which == 2 {
				body = fmt.Sprintf(`{"k%d":%s,"z":"v%d"}`, i, body, i)
			} else {
				body = fmt.Sprintf(`[%s,"v%d"]`, body, i)
			}
		}
		body = `{"objectClassName":"domain","x_deep":` + body + `,"handle":"H"}`
	}
	return
}
