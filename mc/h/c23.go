package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/openrdap/rdap"
)

type pair struct{ k, v string }

// refWhois lists the documented WHOIS-style fields of a domain response.
func refWhois(d map[string]any) []pair {
	var out []pair
	add := func(k, v string) {
		if v != "" {
			out = append(out, pair{k, v})
		}
	}
	str := func(m map[string]any, k string) string { s, _ := m[k].(string); return s }
	list := func(m map[string]any, k string) []map[string]any {
		var r []map[string]any
		a, _ := m[k].([]any)
		for _, e := range a {
			r = append(r, e.(map[string]any))
		}
		return r
	}
	texts := func(m map[string]any, k string) []string {
		var r []string
		a, _ := m[k].([]any)
		for _, e := range a {
			r = append(r, e.(string))
		}
		return r
	}
	add("Domain Name", str(d, "ldhName"))
	add("Handle", str(d, "handle"))
	add("WHOIS Server", str(d, "port43"))
	for _, e := range list(d, "events") {
		if k, ok := map[string]string{"last changed": "Updated Date", "registration": "Creation Date", "expiration": "Expiration Date"}[str(e, "eventAction")]; ok {
			add(k, str(e, "eventDate"))
		}
	}
	first := func(role string) map[string]any {
		for _, e := range list(d, "entities") {
			for _, r := range texts(e, "roles") {
				if r == role {
					return e
				}
			}
		}
		return nil
	}
	if e := first("registrar"); e != nil {
		if ps, ok := refVCard(e["vcardArray"], false); ok {
			add("Registrar", refJoined(ps, "fn"))
		}
		for _, id := range list(e, "publicIds") {
			if str(id, "type") == "IANA Registrar ID" {
				add("Registrar IANA ID", str(id, "identifier"))
			}
		}
	}
	for _, s := range texts(d, "status") {
		add("Domain Status", s)
	}
	for _, c := range [][2]string{{"Registrant", "registrant"}, {"Admin", "administrative"}, {"Tech", "technical"}, {"Abuse", "abuse"}} {
		e := first(c[1])
		if e == nil {
			continue
		}
		ps, ok := refVCard(e["vcardArray"], false)
		if !ok {
			continue
		}
		adr := func(i int) string { return strings.Join(refAdr(ps, i), " ") }
		for _, f := range []pair{{"Name", refJoined(ps, "fn")}, {"PO Box", adr(0)}, {"Extended Address", adr(1)}, {"Street", adr(2)}, {"Locality", adr(3)}, {"Post Code", adr(5)}, {"Country", adr(6)}, {"Tel", refTel(ps, false)}, {"Fax", refTel(ps, true)}, {"Email", refJoined(ps, "email")}} {
			add(c[0]+" "+f.k, f.v)
		}
	}
	for _, n := range list(d, "nameservers") {
		add("Name Server", str(n, "ldhName"))
	}
	return out
}

func checkWhois(c *Ctx, body string, want []pair) {
	obj := decodeBody(c, body)
	w := (&rdap.Response{Object: obj}).ToWhoisStyleResponse()
	c.Step()
	var got []pair
	seen := map[string]bool{}
	for _, k := range w.KeyDisplayOrder {
		if seen[k] {
			c.Fail("the key %q is listed twice\n%s", k, body)
		}
		seen[k] = true
		if len(w.Data[k]) == 0 {
			c.Fail("the key %q has no value\n%s", k, body)
		}
	}
	if len(w.Data) != len(w.KeyDisplayOrder) {
		c.Fail("keys %v, data %v\n%s", w.KeyDisplayOrder, w.Data, body)
	}
	var order []string
	by := map[string][]string{}
	for _, p := range want {
		if by[p.k] == nil {
			order = append(order, p.k)
		}
		by[p.k] = append(by[p.k], p.v)
	}
	_ = got
	for _, k := range order {
		if !eqStrings(by[k], w.Data[k]) {
			c.Fail("%s: %q, want %q\n%s", k, w.Data[k], by[k], body)
		}
	}
	if !eqStrings(order, w.KeyDisplayOrder) {
		c.Fail("keys %q, want %q\n%s", w.KeyDisplayOrder, order, body)
	}
}

func jq(v any) string { b, _ := json.Marshal(v); return string(b) }

func init() {
	roles := []string{"registrar", "registrant", "administrative", "technical", "abuse", "billing"}
	card := func(tok string, mask int) string {
		var ps []string
		has := func(i int) bool { return mask&(1<<i) != 0 }
		if has(0) {
			ps = append(ps, fmt.Sprintf(`["fn",{},"text",%q]`, tok+" name"))
		}
		if mask&0x7e != 0 {
			comp := []string{`""`, `""`, `""`, `""`, `""`, `""`, `""`}
			for i, k := range []int{0, 1, 2, 3, 5, 6} {
				if has(i + 1) {
					comp[k] = fmt.Sprintf("%q", fmt.Sprintf("%s adr%d", tok, k))
				}
			}
			comp[4] = fmt.Sprintf("%q", tok+" region")
			ps = append(ps, `["adr",{},"text",[`+strings.Join(comp, ",")+`]]`)
		}
		if has(7) {
			ps = append(ps, fmt.Sprintf(`["tel",{"type":"voice"},"uri",%q]`, tok+" tel"))
		}
		if has(8) {
			ps = append(ps, fmt.Sprintf(`["tel",{"type":"fax"},"uri",%q]`, tok+" fax"))
		}
		if has(9) {
			ps = append(ps, fmt.Sprintf(`["email",{},"text",%q]`, tok+" email"))
		}
		return `["vcard",[` + strings.Join(ps, ",") + `]]`
	}
	// entity i with a set of roles and a shape
	shapes := 7
	entity := func(i, mask, shape int) string {
		tok := fmt.Sprintf("e%d", i)
		var rs []string
		for k, r := range roles {
			if mask&(1<<k) != 0 {
				rs = append(rs, r)
			}
		}
		if i%2 == 1 { // roles in another order
			for a, b := 0, len(rs)-1; a < b; a, b = a+1, b-1 {
				rs[a], rs[b] = rs[b], rs[a]
			}
		}
		e := fmt.Sprintf(`{"objectClassName":"entity","handle":"h%d","roles":%s`, i, jq(append([]string{}, rs...)))
		if len(rs) == 0 && shape%2 == 0 {
			e = fmt.Sprintf(`{"objectClassName":"entity","handle":"h%d"`, i)
		}
		pids := fmt.Sprintf(`,"publicIds":[{"type":"other","identifier":"o%d"},{"type":"IANA Registrar ID","identifier":"%d"},{"type":"IANA Registrar ID","identifier":"9%d"}]`, i, 100+i, i)
		switch shape {
		case 0:
			e += `,"vcardArray":` + card(tok, 1023) + pids
		case 1: // nothing
		case 2:
			e += `,"vcardArray":` + card(tok, 0x2a9)
		case 3:
			e += `,"vcardArray":` + card(tok, 0x157) + pids
		case 4:
			e += `,"vcardArray":["vcard",[["fn",{},"text"]]]` + pids // broken card
		case 5:
			e += pids
		case 6: // nested entities are not the domain's contacts
			e += `,"vcardArray":` + card(tok, 1) + `,"entities":[{"objectClassName":"entity","roles":` + jq(roles) + `,"vcardArray":` + card(tok+"nested", 1023) + `}]`
		}
		return e + "}"
	}
	spots := []string{`"ldhName":@`, `"handle":@`, `"port43":@`, `"status":[@,"a",@]`, `"nameservers":[{"ldhName":@},{"ldhName":"n"},{"unicodeName":@}]`, `"unicodeName":@`, `"events":[{"eventAction":@,"eventDate":"x"},{"eventAction":"expiration","eventDate":"y"}]`}
	for _, a := range []string{"registration", "expiration", "last changed"} {
		spots = append(spots, `"events":[{"eventAction":"`+a+`","eventDate":@,"eventActor":@},{"eventAction":"`+a+`","eventDate":"x"}]`)
	}
	spots = append(spots, `"entities":[{"roles":["registrar"],"publicIds":[{"type":"IANA Registrar ID","identifier":@}]}]`, `"entities":[{"roles":["registrar"],"publicIds":[{"type":@,"identifier":"1"},{"type":"IANA Registrar ID","identifier":"2"}]}]`, `"entities":[{"roles":[@],"vcardArray":`+card("a", 1023)+`},{"roles":["registrant",@,"abuse"],"vcardArray":`+card("b", 1023)+`}]`)
	for _, r := range roles[:5] {
		spots = append(spots, `"entities":[{"roles":["`+r+`"],"vcardArray":["vcard",[["fn",{},"text",@],["email",{},"text",@],["tel",{},"uri",@],["tel",{"type":"fax"},"uri",@],["adr",{},"text",[@,@,@,@,@,@,@]]]]}]`)
		spots = append(spots, `"entities":[{"roles":["`+r+`"],"vcardArray":["vcard",[["fn",{},"text",[@,"b"]],["email",{},"text",@,"c"],["tel",{"type":["voice",@]},"uri",[@]],["adr",{"label":@},"text",["","","","","","",@]]]]}]`)
	}
	texts := append(append(append([]string{}, textZoo...), longTexts(70000)...), charTexts(2048, nil)...)
	actions := []string{"registration", "expiration", "last changed", "last update of RDAP database", "Registration", "", "transfer", "reregistration"}
	register(&Check{
		ID:   "C23",
		Rule: "domain responses: 1 or 2 entities with every subset of 6 roles and every shape of contact, 3 entities with subsets of at most 2 roles; one contact with every subset of its 10 components; every sequence of up to 4 events; presence, absence and emptiness of every domain member; statuses, name servers and public IDs repeated or empty; every value position with every text of a list of contents that careless code changes, long texts and every Unicode character; all other response types; keys, values and orders compared with a reference mapping",
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"entities": 3, "role_subsets_1_2": 64, "role_subsets_3": Pick(c, 8, 22), "shapes": Pick(c, 4, 7), "events": Pick(c, 4, 5), "component_subsets": 1024, "texts": len(texts), "value_positions": len(spots)}
		},
		Run: func(c *Ctx) {
			var body string
			switch c.Choose("mode", 9) {
			case 0: // entities
				n := c.Choose("entities", 4)
				var es []string
				var masks []int
				if n < 3 {
					for m := 0; m < 64; m++ {
						masks = append(masks, m)
					}
				} else {
					masks = []int{0, 1, 2, 4, 8, 16, 3, 31}
					if c.Thorough() {
						masks = []int{0}
						for a := 0; a < 6; a++ {
							masks = append(masks, 1<<a)
							for b := 0; b < a; b++ {
								masks = append(masks, 1<<a|1<<b)
							}
						}
					}
				}
				for i := 0; i < n; i++ {
					m := Of(c, "roles", masks)
					if i == 0 {
						c.Shard()
					}
					sh := shapes
					if !c.Thorough() && n >= 2 {
						sh = 4
					}
					if n == 3 {
						sh = Pick(c, 3, 4)
					}
					es = append(es, entity(i, m, c.Choose("shape", sh)))
				}
				if n == 0 {
					c.Shard()
				}
				body = `{"objectClassName":"domain","ldhName":"d.example","entities":[` + strings.Join(es, ",") + `],"nameservers":[{"objectClassName":"nameserver","ldhName":"ns.example"}]}`
			case 1: // components
				r := c.Choose("role", 5)
				c.Shard()
				for mask := 0; mask < 1024; mask++ {
					b := fmt.Sprintf(`{"objectClassName":"domain","entities":[{"roles":["billing"],"vcardArray":%s},{"roles":[%q],"vcardArray":%s},{"roles":%s,"vcardArray":%s}]}`, card("other", 1023), roles[r], card("c", mask), jq(roles), card("last", 1023))
					checkWhois(c, b, refWhois(parseJSON(b).(map[string]any)))
				}
				c.State(r)
				return
			case 2: // events
				n := c.Choose("events", Pick(c, 5, 6))
				c.Shard()
				var es []string
				for i := 0; i < n; i++ {
					a := Of(c, "action", actions[:Pick(c, 6, 8)])
					d := fmt.Sprintf("20%02d-01-01", i)
					if i == 2 && c.Bool("no date") {
						d = ""
					}
					es = append(es, fmt.Sprintf(`{"eventAction":%q,"eventDate":%q,"eventActor":"actor%d"}`, a, d, i))
				}
				body = `{"objectClassName":"domain","handle":"H","events":[` + strings.Join(es, ",") + `],"status":["active"]}`
			case 3: // members
				var ms []string
				add := func(name string, vals ...string) {
					v := c.Choose(name, len(vals)+1)
					if v > 0 {
						ms = append(ms, fmt.Sprintf("%q:%s", name, vals[v-1]))
					}
				}
				add("ldhName", `"d.example"`, `""`)
				c.Shard()
				add("handle", `"H"`, `""`)
				add("port43", `"whois.example"`, `""`)
				add("unicodeName", `"U"`)
				add("status", `["a"]`, `["a","b","a"]`, `["","c"]`, `[]`)
				add("nameservers", `[{"ldhName":"n1"}]`, `[{"ldhName":"n1","unicodeName":"u"},{"ldhName":""},{},{"ldhName":"n1"},{"ldhName":"n0"}]`, `[]`)
				add("events", `[{"eventAction":"expiration","eventDate":"E"}]`, `[]`)
				add("entities", `[`+entity(0, 1, 0)+`]`, `[`+entity(0, 31, 3)+`,`+entity(1, 31, 0)+`]`)
				add("secureDNS", `{"delegationSigned":true}`)
				body = `{"objectClassName":"domain"` + strings.Join(append([]string{""}, ms...), ",") + "}"
			case 4: // public IDs
				var ids []string
				n := c.Choose("ids", 4)
				for i := 0; i < n; i++ {
					ids = append(ids, fmt.Sprintf(`{"type":%q,"identifier":%q}`, Of(c, "type", []string{"IANA Registrar ID", "iana registrar id", "other", ""}), Of(c, "id", []string{fmt.Sprintf("i%d", i), ""})))
				}
				c.Shard()
				body = fmt.Sprintf(`{"objectClassName":"domain","publicIds":[{"type":"IANA Registrar ID","identifier":"domain's"}],"entities":[{"roles":[%q],"publicIds":[{"type":"IANA Registrar ID","identifier":"wrong"}]},{"roles":["abuse","registrar"],"publicIds":[%s]%s}]}`,
					Of(c, "first", []string{"registrant", "Registrar", "sponsor"}), strings.Join(ids, ","), Of(c, "card", []string{"", `,"vcardArray":` + card("r", 1), `,"vcardArray":` + card("r", 1022)}))
			case 6: // roles that merely resemble the documented ones
				role := Of(c, "role", roles[:5])
				c.Shard()
				i := c.Choose("shape", 3)
				near := []string{strings.ToUpper(role), strings.ToUpper(role[:1]) + role[1:], role + "s", role + " reseller", role[:len(role)-1], role[1:], " " + role, role + " ", "sub" + role, "x " + role, role + "\n", "", role + "," + role, "registrar abuse", "all", "*"}
				for _, x := range append(near, roles...) {
					if x == role {
						continue
					}
					b := `{"objectClassName":"domain","entities":[{"roles":[` + jq(x) + `],` + []string{"", `"handle":` + jq(role) + `,`, `"remarks":[{"title":` + jq(role) + `}],`}[i] + `"publicIds":[{"type":"IANA Registrar ID","identifier":"near"}],"vcardArray":` + card("near", 1023) + `},{"roles":["billing",` + jq(role) + `],"publicIds":[{"type":"IANA Registrar ID","identifier":"real"}],"vcardArray":` + card("real", 1023) + `}]}`
					checkWhois(c, b, refWhois(parseJSON(b).(map[string]any)))
					c.State(role, x, i)
				}
				return
			case 8: // public IDs of a type that merely resembles the documented one
				id := "IANA Registrar ID"
				c.Shard()
				for _, x := range []string{"IANA", "IANA ID", "IANA Registrar", "IANA Registrar ", "IANA Registrar ID ", " IANA Registrar ID", "IANA Registrar IDs", "IANA Registrar ID 2", "IANA Registrar id", "IANA  Registrar ID", "IANA Registrar Id", "Iana Registrar ID", "IANA RegistrarID", "IANA_Registrar_ID", "Registrar ID", "Registrar IANA ID", "IANA Registry ID", "IANA Reseller ID", "ICANN Registrar ID", "ENS_Auth ID", "ID", "*"} {
					for _, ids := range []string{`{"type":` + jq(x) + `,"identifier":"near"}`, `{"type":` + jq(x) + `,"identifier":"near"},{"type":` + jq(id) + `,"identifier":"real"}`, `{"type":` + jq(id) + `,"identifier":"real"},{"type":` + jq(x) + `,"identifier":"near"}`} {
						b := `{"objectClassName":"domain","entities":[{"roles":["registrar"],"publicIds":[` + ids + `]}]}`
						checkWhois(c, b, refWhois(parseJSON(b).(map[string]any)))
						c.State("id", x, ids)
					}
				}
				return
			case 7: // texts
				spot := Of(c, "position", spots)
				c.Shard()
				c.State("text", spot)
				for _, x := range texts {
					b := `{"objectClassName":"domain",` + strings.ReplaceAll(spot, "@", jq(x)) + `}`
					checkWhois(c, b, refWhois(parseJSON(b).(map[string]any)))
				}
				return
			case 5: // other types
				r := c.Choose("root", len(rootTypes)-1) + 1
				c.Shard()
				b := fullRoot(r, 1, 1)
				c.State(r)
				checkWhois(c, b, nil)
				w := (&rdap.Response{}).ToWhoisStyleResponse()
				c.Check(w != nil && len(w.KeyDisplayOrder) == 0 && len(w.Data) == 0, "a response with no object gives %v", w)
				return
			}
			want := refWhois(parseJSON(body).(map[string]any))
			c.State(len(want), fmt.Sprint(want))
			checkWhois(c, body, want)
		},
	})
}
