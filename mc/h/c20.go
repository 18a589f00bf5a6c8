package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/openrdap/rdap"
)

const slot = "@SLOT@"

// fill puts a text (as JSON) into a document's slot.
func fill(doc, text string) string {
	b, err := json.Marshal(text)
	if err != nil {
		harnessf("%v", err)
	}
	return strings.ReplaceAll(doc, slot, string(b[1:len(b)-1]))
}

// letters replaces the line-breaking characters with a letter that occurs nowhere else.
func letters(s string) string { return lettersR.Replace(s) }

func squeeze(s string) string { return squeezeR.Replace(s) }

// other characters that terminals, editors or careless code may take for a line end or an escape; they may be shown or dropped
var oddChars = []string{"\t", "\v", "\f", "\x1b", "\x1c", "\x1e", "\x7f", "\x01", "\x08", "\u0085", "\u00a0", "\u2028", "\u2029", "\ufeff", `\n`, `\r`, "%0A", "%n", "&#10;", "<br>", "\u240a", "\ufffd"}

var lettersR, squeezeR = func() (*strings.Replacer, *strings.Replacer) {
	l := []string{"\n", "Q", "\r", "Q", "\x00", "Q"}
	q := []string{"Q", "", " ", ""}
	for _, o := range oddChars {
		l = append(l, o, "Q")
		q = append(q, o, "")
	}
	return strings.NewReplacer(l...), strings.NewReplacer(q...)
}()

// sameLines says how the output of a hostile response differs in lines from that of a tame one.
func sameLines(hostile, tame string) string {
	if i := strings.IndexAny(hostile, "\r\x00"); i >= 0 {
		return fmt.Sprintf("the output contains %q", hostile[i])
	}
	h, t := strings.Split(hostile, "\n"), strings.Split(tame, "\n")
	if len(h) != len(t) {
		return fmt.Sprintf("the output has %d lines, %d when the characters are letters", len(h), len(t))
	}
	for i := range h {
		if squeeze(h[i]) != squeeze(t[i]) {
			return fmt.Sprintf("line %d is %q, and %q when the characters are letters", i+1, h[i], t[i])
		}
	}
	return ""
}

func init() {
	var paths, types []objPath
	var texts, short, late []string
	register(&Check{
		ID:   "C20",
		Rule: "every text position (known member, list element, unknown name, unknown value and nested unknown name, vCard property name and value) of every object reachable by a path, x all texts up to the length bound over {letter, LF, CR, NUL}, line-forging texts and texts with 22 other separators, control characters and escape spellings, and (per object type) texts with those characters after, or repeated, up to 70,000 (thorough: 262,144) bytes; printed with every combination of printer options (per object type), and through the command line's text and WHOIS output; compared line by line with the output for the same response with those characters replaced by letters",
		Setup: func(c *Ctx) {
			paths = objPaths(2)
			seen := map[string]bool{}
			for _, p := range paths {
				if t := p.target(); !seen[t.name] {
					seen[t.name] = true
					types = append(types, p)
				}
			}
			for _, w := range words([]string{"a", "\n", "\r", "\x00"}, Pick(c, 3, 4)) {
				if letters(w) != w {
					texts = append(texts, w)
					if len(w) <= 2 || c.Thorough() && len(w) <= 3 {
						short = append(short, w)
					}
				}
			}
			for i, o := range oddChars {
				texts = append(texts, "a"+o+"b")
				short = append(short, "a"+o+"b", "a"+o+"b\n")
				texts = append(texts, "a"+o+"b\n", "\r"+o, o+"Handle: forged\x00")
				if c.Thorough() {
					texts = append(texts, o, o+o, "a\n"+o+"\r"+oddChars[(i+1)%len(oddChars)]+"\x00")
				}
			}
			for _, n := range []int{60, 127, 128, 255, 256, 511, 512, 1023, 1024, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, Pick(c, 70000, 1<<18)} {
				late = append(late, strings.Repeat("y", n)+"\nHandle: forged\r\x00", strings.Repeat("é", n/2)+"\r", strings.Repeat("\n", n)+"z", strings.Repeat("y\x00", n/2))
			}
			short = append(short, "x\nHandle: forged", "x\r\n  Status: forged\r\n")
			texts = append(texts, "x\nHandle: forged", "x\r\n  Status: forged\r\n", "\n\n\nDomain:\n", "long "+strings.Repeat("y", 300)+"\n\x00\r"+strings.Repeat("z", 300), "é\n界\r", "\u2028\n")
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"paths": len(paths), "path_depth": 2, "object_types": len(types), "texts": len(texts), "long_texts": len(late), "text_length": Pick(c, 3, 4), "option_combinations": 16}
		},
		Assumptions: []string{"line-breaking characters are LF, CR and NUL"},
		Run: func(c *Ctx) {
			mode := c.Choose("mode", 4)
			if mode == 2 {
				cliLines(c, texts, late)
				return
			}
			p := Of(c, "path", [][]objPath{paths, types, nil, types}[mode])
			c.Shard()
			t := p.target()
			// positions
			var docs [][]kv
			with := func(k, v string) { docs = append(docs, setKV(goodKV(t, "t", 0), k, v)) }
			for i := range t.members {
				me := &t.members[i]
				if len(p.steps) == 0 && me.json == rootTypes[p.root].key {
					continue
				}
				switch me.kind {
				case "s":
					with(me.json, `"`+slot+`"`)
				case "[]s":
					with(me.json, `["before","`+slot+`","after"]`)
				case "vcard":
					with(me.json, `["vcard",[["fn",{},"text","`+slot+`"],["org",{},"text",["x","`+slot+`",["`+slot+`"]]]]]`)
					with(me.json, `["vcard",[["`+slot+`",{},"text","v","w"]]]`)
				}
			}
			with("x_ext", `"`+slot+`"`)
			with("x_ext", `["b","`+slot+`"]`)
			with("x_ext", `{"k":"`+slot+`"}`)
			with("x_ext", `{"`+slot+`":5}`)
			with("x_ext", `[{"`+slot+`":["`+slot+`",{"`+slot+`":{}}]}]`)
			with(slot, `"v"`)
			with(slot, `["v",true,null,1.5]`)
			with(slot, `{"k":"v"}`)
			with(slot, `{}`)
			i := c.Choose("position", len(docs))
			ms := docs[i]
			if len(p.steps) == 0 {
				ms = p.discriminate(ms, "")
			}
			doc := p.wrap(renderRaw(ms), false, true)
			opts := []popts{{}, {briefLinks: true}}
			if mode == 1 {
				opts = nil
				for k := 0; k < 16; k++ {
					opts = append(opts, popts{omitNotices: k&1 > 0, omitRemarks: k&2 > 0, brief: k&4 > 0, briefLinks: k&8 > 0, char: []rune{0, '\t'}[k&1], size: uint(k % 3)})
				}
			}
			c.State(p.String(), i)
			ts := texts
			if mode == 0 {
				ts = short
			}
			if mode == 3 {
				ts = late
				if !c.Thorough() {
					opts = opts[:1]
				}
			}
			for _, s := range ts {
				hostile, tame := fill(doc, s), fill(doc, letters(s))
				ho, to := decodeBody(c, hostile), decodeBody(c, tame)
				for _, o := range opts {
					c.Step()
					if m := sameLines(printWith(o, ho), printWith(o, to)); m != "" {
						c.Fail("%s\ntext %q, options %v\nresponse %s", m, s, o, clip(hostile, 2000))
					}
				}
			}
		},
	})
}

// renderRaw writes members without escaping their names.
func renderRaw(ms []kv) string {
	var out []string
	for _, m := range ms {
		out = append(out, `"`+m.k+`":`+m.v)
	}
	return "{" + strings.Join(out, ",") + "}"
}

// cliLines checks the command's text and WHOIS output.
func cliLines(c *Ctx, texts, late []string) {
	S := `"` + slot + `"`
	card := func(props ...string) string { return `["vcard",[` + strings.Join(props, ",") + `]]` }
	docs := []string{
		`"ldhName":` + S, `"handle":` + S, `"port43":` + S, `"status":["a",` + S + `,"b"]`, `"nameservers":[{"ldhName":` + S + `},{"ldhName":"ns2"}]`,
		`"events":[{"eventAction":"registration","eventDate":` + S + `},{"eventAction":"expiration","eventDate":"E"}]`,
		`"events":[{"eventAction":"last changed","eventDate":` + S + `}]`,
		`"entities":[{"roles":["registrar"],"publicIds":[{"type":"IANA Registrar ID","identifier":` + S + `}],"vcardArray":` + card(`["fn",{},"text",`+S+`]`) + `}]`,
		`"unicodeName":` + S, `"x_ext":{` + S + `:` + S + `}`,
		`"links":[{"href":` + S + `,"rel":` + S + `}]`,
	}
	for _, role := range []string{"registrant", "administrative", "technical", "abuse"} {
		for _, prop := range []string{`["fn",{},"text",` + S + `]`, `["adr",{},"text",[` + S + `,` + S + `,` + S + `,` + S + `,` + S + `,` + S + `,` + S + `]]`, `["tel",{},"uri",` + S + `],["tel",{"type":"fax"},"uri",` + S + `]`, `["email",{},"text",` + S + `]`, `["adr",{},"text",["","",["1 St",` + S + `],"","","",""]]`} {
			docs = append(docs, `"entities":[{"roles":["`+role+`"],"vcardArray":`+card(prop)+`}]`)
		}
	}
	i := c.Choose("position", len(docs))
	opt := Of(c, "output", []string{"--whois", "--text"})
	c.Shard()
	doc := `{"objectClassName":"domain",` + docs[i] + `}`
	c.State(opt, i)
	for _, s := range append(append([]string{}, texts...), late...) {
		run := func(body string) string {
			var so, se string
			var code int
			Bubble(func() {
				w := &cliWorld{hosts: map[string]*cliHost{"s.test:80": staticHost(200, body)}}
				code, so, se = w.runCLI([]string{"--cache-dir=", "-s", "http://s.test/", "-t", "domain", opt, "x.test"}, rdap.CLIOptions{})
			})
			c.Step()
			if code != 0 {
				c.Fail("the command fails: %s", se)
			}
			return so
		}
		if m := sameLines(run(fill(doc, s)), run(fill(doc, letters(s)))); m != "" {
			c.Fail("rdap %s: %s\ntext %q\nresponse %s", opt, m, s, fill(doc, s))
		}
	}
}
