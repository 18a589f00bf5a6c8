package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/openrdap/rdap"
)

var cardDocs = []string{
	`["vcard",[]]`, `["vcard"]`, `["vcard",[],1]`, `["VCARD",[]]`, `["vcard ",[]]`, `[5,[]]`, `[null,[]]`, `[["vcard"],[]]`, `["vcard",{}]`, `["vcard",null]`, `["vcard","x"]`, `["vcard",5]`, `["vcard",true]`,
	`[]`, `{}`, `null`, `"vcard"`, `5`, `true`, `[[],"vcard"]`, `["vcard",[[]]]`, `["vcard",[null]]`, `["vcard",[5]]`, `["vcard",["fn"]]`, `["vcard",[{}]]`, `["vcard",[["fn",{},"text","N"]]]`, `["vcard",["fn",{},"text","N"]]`,
	`["vcard",[["fn",{},"text","N"]],[]]`, ``, ` `, `[`, `["vcard",[]`, `["vcard",[]]]`, `["vcard",[]] x`, `{"vcard":[]}`, `["vcard",[[["fn",{},"text","N"]]]]`, `["vcard","vcard"]`, `["",[]]`,
}

// properties of a card: valid and malformed.
var cardProps = []string{
	`["fn",{},"text","Ann"]`, `["fn",{},"text","Bob"]`, `["fn",{},"text"]`, `["fn",{}]`, `["fn"]`, `[]`, `5`, `null`, `"fn"`, `{}`,
	`[5,{},"text","x"]`, `[null,{},"text","x"]`, `["fn",[],"text","x"]`, `["fn",null,"text","x"]`, `["fn","p","text","x"]`, `["fn",{},5,"x"]`, `["fn",{},null,"x"]`, `["fn",{},["text"],"x"]`,
	`["org",{"a":"b","c":["d","e"]},"text","v1","v2"]`, `["org",{},"unknown",["x",["y"]]]`, `["email",{"pref":"1"},"text","a@b"]`, `["email",{},"text",null]`, `["email",{},"text",{}]`, `["",{},"",""]`,
	`["x-y",{},"text",[[["deep"]]]]`, `["x-y",{},"text",[[[["deep"]]]]]`, `["x-y",{},"text",[1,{"a":1}]]`, `["adr",{},"text",["p","e","s","l","r","c","n"]]`, `["tel",{"type":"fax"},"uri","tel:1"]`, `["tel",{"type":["voice"]},"uri","tel:2",true,7]`,
	`["fn",{},"text",[]]`, `["FN",{},"text","upper"]`, `["fn",{},"text",1.50]`, `["n",{},"text",null,false]`, `[["fn",{},"text","x"]]`, `["fn",{"a":"b"},"integer",12345678901]`,
}

// checkCard decodes a document both ways and compares everything with the reference.
func checkCard(c *Ctx, doc string, lenient bool) {
	var src any
	valid := func() (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		src = parseJSON(doc)
		return true
	}()
	var want []refProp
	ok := false
	if valid {
		want, ok = refVCard(src, lenient)
	}
	var vc *rdap.VCard
	var err error
	if lenient {
		vc, err = rdap.NewVCardWithOptions([]byte(doc), rdap.VCardOptions{IgnoreInvalidProperties: true})
	} else if len(doc)%2 == 0 {
		vc, err = rdap.NewVCard([]byte(doc))
	} else {
		vc, err = rdap.NewVCardWithOptions([]byte(doc), rdap.VCardOptions{})
	}
	c.Step()
	c.State(ok, len(want), err == nil)
	if (err == nil) != ok {
		c.Fail("vCard %s (ignore invalid: %v): error %v, want valid=%v", doc, lenient, err, ok)
	}
	if !ok {
		return
	}
	if m := compareVCard("vCard", want, reflect.ValueOf(vc)); m != "" {
		c.Fail("%s\n%s (ignore invalid: %v)", m, doc, lenient)
	}
	checkAccessors(c, doc, vc, want)
	// accessors do not change the card
	if m := compareVCard("vCard, after the accessors", want, reflect.ValueOf(vc)); m != "" {
		c.Fail("%s\n%s", m, doc)
	}
}

func checkAccessors(c *Ctx, doc string, vc *rdap.VCard, want []refProp) {
	eq := func(name, got, w string) {
		if got != w {
			c.Fail("%s() = %q, want %q\n%s", name, got, w, doc)
		}
	}
	eq("Name", vc.Name(), refJoined(want, "fn"))
	eq("Email", vc.Email(), refJoined(want, "email"))
	eq("Org", vc.Org(), refJoined(want, "org"))
	if !oddTypes(want) {
		eq("Tel", vc.Tel(), refTel(want, false))
		eq("Fax", vc.Fax(), refTel(want, true))
	}
	for i, got := range []string{vc.POBox(), vc.ExtendedAddress(), vc.StreetAddress(), vc.Locality(), vc.Region(), vc.PostalCode(), vc.Country()} {
		w := refAdr(want, i)
		name := []string{"POBox", "ExtendedAddress", "StreetAddress", "Locality", "Region", "PostalCode", "Country"}[i]
		if len(w) <= 1 {
			eq(name, got, strings.Join(w, ""))
			continue
		}
		// several values: all of them, in order
		rest := got
		for _, v := range w {
			j := strings.Index(rest, v)
			if j < 0 {
				c.Fail("%s() = %q, want the values %q\n%s", name, got, w, doc)
			}
			rest = rest[j+len(v):]
		}
	}
	seen := map[string]bool{"nosuch": true}
	for _, p := range want {
		seen[p.name] = true
	}
	for n := range seen {
		var idx []int
		for i, p := range want {
			if p.name == n {
				idx = append(idx, i)
			}
		}
		got := vc.Get(n)
		if len(got) != len(idx) {
			c.Fail("Get(%q) has %d properties, want %d\n%s", n, len(got), len(idx), doc)
		}
		for k, i := range idx {
			if got[k] != vc.Properties[i] {
				c.Fail("Get(%q)[%d] is not property %d\n%s", n, k, i, doc)
			}
		}
		f := vc.GetFirst(n)
		if (f == nil) != (len(idx) == 0) || f != nil && f != vc.Properties[idx[0]] {
			c.Fail("GetFirst(%q) is not the first such property\n%s", n, doc)
		}
	}
}

// oddTypes: a type parameter with no text in it is not constrained.
func oddTypes(ps []refProp) bool {
	for _, p := range ps {
		if t, has := p.params["type"]; has && len(t) == 0 {
			return true
		}
	}
	return false
}

func init() {
	var trees []string
	var texts []string
	spots := []string{`[%s,{},"text","x"]`, `["fn",{},"text",%s]`, `["fn",{},%s,"x"]`, `["fn",{%s:"x"},"text","x"]`, `["fn",{"label":%s},"text","x"]`, `["fn",{"label":[%s,"b",%s]},"text","x"]`, `["fn",{},"text",[%s,"b",%s]]`, `["fn",{},"text",%s,%s]`,
		`["org",{},"text",[%s,["u",%s]]]`, `["email",{},"text",%s]`, `["tel",{},"uri",%s]`, `["tel",{"type":"fax"},"uri",%s]`, `["tel",{"type":%s},"uri","t"],["tel",{"type":["voice",%s]},"uri","u"],["tel",{"type":[%s,"fax"]},"uri","v"]`, `["adr",{},"text",[%s,%s,%s,%s,%s,%s,%s]]`, `["adr",{"label":%s},"text",["","","","","","",""]]`, `["adr",{},"text",%s]`, `["adr",{},"text",["","",["s",%s],"","","",""]]`}
	leavesL := []string{`"a"`, `null`, `7`, `true`, `""`, `1e21`, `-0.5`}
	tels := []string{`["tel",{},"uri","tel:%d"]`, `["tel",{"type":"voice"},"uri","tel:%d"]`, `["tel",{"type":"fax"},"uri","tel:%d"]`, `["tel",{"type":["work","voice"]},"uri","tel:%d"]`, `["tel",{"type":["fax","work"]},"uri","tel:%d"]`,
		`["tel",{"type":["voice","fax"]},"text","tel:%d"]`, `["tel",{"type":"cell"},"uri","tel:%d"]`, `["tel",{"type":["home","cell"]},"uri","tel:%d"]`, `["tel",{"type":"voice"},"text",["v%d","w"]]`, `["tel",{"type":"voice"},"text",[]]`, `["tel",{"type":"fax"},"text",[]]`,
		`["tel",{"type":"fax"},"text",[["f%d"]]]`, `["tel",{"type":"voice"},"text",%d]`, `["tel",{"pref":"1"},"text","p%d"]`, `["TEL",{},"text","u%d"]`, `["fn",{"type":"voice"},"text","n%d"]`, `["tel",{},"text",null,"x%d"]`}
	adrVals := []string{`"x%d"`, `["m%d","n%d"]`, `""`, `[]`, `null`, `%d`, `[["q%d"],"r%d",["s%d"]]`, `"a b,%d"`, `false`}
	register(&Check{
		ID:   "C19",
		Rule: "all jCards: malformed and valid whole documents; all sequences of up to 3 properties over a list of valid and malformed properties; all value trees of width <=2 and depth <=2 (and these under every chain of 2 more arrays, one beyond the depth limit), as a single or as a multi-valued property; addresses with every combination of component shapes; all sequences of up to 3 telephone properties; every property name of RFC 6350 x every value type x values x every standard parameter, alone, first and last; every position of a text in a card with every text of a list of contents that careless code changes, texts of lengths up to 70,000 and every Unicode character; strict and lenient decoding; properties, flattened values, Get/GetFirst and all accessors compared with a reference",
		Setup: func(c *Ctx) {
			lv := leavesL[:Pick(c, 4, 5)]
			f0 := append(append([]string{}, lv...), `{}`)
			grow := func(in []string) []string {
				out := append([]string{}, f0...)
				out = append(out, `[]`)
				for _, a := range in {
					out = append(out, "["+a+"]")
				}
				for _, a := range in {
					for _, b := range in {
						out = append(out, "["+a+","+b+"]")
					}
				}
				return out
			}
			f2 := grow(grow(f0))
			trees = append(append([]string{}, leavesL...), f2...)
			texts = append(append(append(texts, textZoo...), longTexts(Pick(c, 70000, 1<<20))...), charTexts(2048, nil)...)
			texts = append(texts, "", "\n", "a\nb", "\r\n", "\x00")
			for _, w := range []string{"[%s]", `["z",%s]`, `[%s,"z"]`, `[[%s]]`, `[["z",%s],"y"]`} {
				for _, t := range f2 {
					trees = append(trees, fmt.Sprintf(w, t))
				}
			}
			trees = append(trees, `["a","b","c","d",["e","f",["g","h","i"],"j"],"k"]`, `[[[]]]`, `[[[[]]]]`, `[[[[[]]]]]`, `[[["a",[]]]]`)
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"documents": len(cardDocs), "property_shapes": len(cardProps), "properties": 3, "value_trees": len(trees), "component_shapes": Pick(c, 5, 7), "telephones": 3, "telephone_shapes": len(tels), "texts": len(texts), "text_positions": len(spots), "standard_properties": len(stdProps), "standard_parameters": len(stdParams)}
		},
		Assumptions: []string{"a type parameter holding no text at all is not constrained", "parameter values that are not texts are not constrained", "several values of one address component are all returned, in order; how they are joined is not constrained"},
		Run: func(c *Ctx) {
			switch c.Choose("mode", 7) {
			case 0:
				d := Of(c, "document", cardDocs)
				c.Shard()
				checkCard(c, d, c.Bool("ignore invalid"))
			case 1:
				n := c.Choose("properties", 4)
				var ps []string
				for i := 0; i < n; i++ {
					ps = append(ps, Of(c, "property", cardProps))
					if i == 1 {
						c.Shard()
					}
				}
				if n < 2 {
					c.Shard()
				}
				c.State(n, len(ps))
				checkCard(c, `["vcard",[`+strings.Join(ps, ",")+`]]`, c.Bool("ignore invalid"))
			case 2:
				name := Of(c, "name", []string{"fn", "org", "email", "tel", "adr", "x"})
				form := c.Choose("form", 4)
				c.Shard()
				for _, t := range trees {
					v := []string{t, t + `,"more"`, `"more",` + t, t + `,` + t}[form]
					nm := name
					if nm == "adr" && form > 0 && strings.HasPrefix(t, "[") {
						nm = "x" // several addresses: not constrained for the accessors
					}
					checkCard(c, fmt.Sprintf(`["vcard",[[%q,{},"text",%s]]]`, nm, v), false)
				}
			case 3:
				// addresses: every combination of component shapes
				n := Of(c, "components", []int{7, 0, 1, 2, 3, 4, 5, 6, 8})
				k := Pick(c, 5, 7)
				if n == 8 {
					k = 2
				}
				var comps []string
				for i := 0; i < n; i++ {
					s := adrVals[c.Choose("component", k)]
					comps = append(comps, strings.ReplaceAll(s, "%d", fmt.Sprint(i)))
					if i == 2 {
						c.Shard()
					}
				}
				if n <= 2 {
					c.Shard()
				}
				pre := ""
				if n%2 == 1 {
					pre = `["fn",{},"text","N"],`
				}
				checkCard(c, `["vcard",[`+pre+`["adr",{"type":"work"},"text",[`+strings.Join(comps, ",")+`]],["adr",{},"text",["o0","o1","o2","o3","o4","o5","o6"]]]]`, false)
			case 6: // the standard's properties, value types and parameters
				p := Of(c, "property", stdProps)
				c.Shard()
				place := c.Choose("place", 4)
				lenient := c.Bool("ignore invalid")
				for _, t := range stdTypes {
					for _, v := range stdValues {
						for i, prm := range stdParams {
							if i > 0 && v != stdValues[0] && v != stdValues[1] && !c.Thorough() {
								continue
							}
							x := fmt.Sprintf(`[%q,%s,%q,%s]`, p, prm, t, v)
							fn := `["fn",{},"text","N"]`
							checkCard(c, `["vcard",[`+[]string{x, x + "," + fn, fn + "," + x, `["version",{},"text","4.0"],` + fn + "," + x + "," + x}[place]+`]]`, lenient)
						}
					}
				}
				c.State(p, place)
			case 5:
				spot := Of(c, "position", spots)
				c.Shard()
				lenient := c.Bool("ignore invalid")
				for i, x := range texts {
					checkCard(c, `["vcard",[`+strings.ReplaceAll(spot, "%s", jq(x))+`,["fn",{},"text","last"]]]`, lenient)
					c.State(spot, i)
				}
			case 4:
				n := c.Choose("telephones", 4)
				var ps []string
				for i := 0; i < n; i++ {
					ps = append(ps, strings.ReplaceAll(Of(c, "tel", tels), "%d", fmt.Sprint(i)))
					if i == 0 {
						c.Shard()
					}
				}
				if n == 0 {
					c.Shard()
				}
				checkCard(c, `["vcard",[`+strings.Join(ps, ",")+`]]`, false)
			}
		},
	})
}

var (
	stdProps  = strings.Fields("version source kind xml fn n nickname photo bday anniversary gender adr tel email impp lang tz geo title role logo org member related categories note prodid rev sound uid clientpidmap url key fburl caladruri caluri contact-uri birthplace deathdate expertise hobby interest org-directory label agent class x-custom VERSION Kind begin end vcard")
	stdTypes  = strings.Fields("text uri date time date-time date-and-or-time timestamp boolean integer float utc-offset language-tag unknown x-y TEXT")
	stdValues = []string{`"4.0"`, `"3.0"`, `"2.1"`, `""`, `"individual"`, `"org"`, `"1985-04-12"`, `"--04-12"`, `"-0500"`, `"text:;,\\n"`, `true`, `false`, `1`, `-5`, `1.5`, `4.0`, `null`, `["M","x"]`, `["a","b","c","",""]`, `"urn:uuid:1","second"`, `"data:image/png;base64,AAAA"`, `"geo:1,2"`, `"tel:+1;ext=2"`, `"mailto:a@b"`}
	stdParams = []string{`{}`, `{"type":"work"}`, `{"type":["work","home"]}`, `{"pref":"1"}`, `{"altid":"1"}`, `{"pid":"1.1"}`, `{"language":"en"}`, `{"value":"uri"}`, `{"mediatype":"text/plain"}`, `{"calscale":"gregorian"}`, `{"sort-as":"x"}`, `{"geo":"geo:1,2"}`, `{"tz":"x"}`, `{"cc":"US"}`, `{"label":"a\nb"}`, `{"encoding":"b"}`, `{"charset":"UTF-8"}`, `{"group":"g"}`, `{"x-p":"v","type":"fax"}`, `{"version":"3.0"}`}
)
