package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
)

// The RDAP data model, written down independently of the code: every member of every object, with
// the Go field it is documented to fill, its type and how text output shows it.
type member struct {
	json  string
	field string // Go field name
	kind  string // s, []s, o (object), []o, u8 u16 u32 u64, b, vcard
	obj   string // object type of o and []o
	label string // label in text output, "" when not shown by itself
	group string // printer option group: notices, remarks, events, conformance, port43, variants, securedns, links, nested
}

type objType struct {
	name    string
	heading string
	members []member
}

var common = []member{{"lang", "Lang", "s", "", "", ""}}

func mm(parts ...[]member) []member {
	var out []member
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

var (
	mConf    = []member{{"rdapConformance", "Conformance", "[]s", "", "Conformance", "conformance"}}
	mNotices = []member{{"notices", "Notices", "[]o", "notice", "Notice", "notices"}}
	mClass   = []member{{"objectClassName", "ObjectClassName", "s", "", "", ""}}
	mHandle  = []member{{"handle", "Handle", "s", "", "Handle", ""}}
	mStatus  = []member{{"status", "Status", "[]s", "", "Status", ""}}
	mEnt     = []member{{"entities", "Entities", "[]o", "entity", "Entity", ""}}
	mRemarks = []member{{"remarks", "Remarks", "[]o", "remark", "Remark", "remarks"}}
	mLinks   = []member{{"links", "Links", "[]o", "link", "Link", "links"}}
	mPort43  = []member{{"port43", "Port43", "s", "", "Port43", "port43"}}
	mEvents  = []member{{"events", "Events", "[]o", "event", "Event", "events"}}
	mPIDs    = []member{{"publicIds", "PublicIDs", "[]o", "publicid", "Public ID", ""}}
	mTop     = mm(common, mConf, mClass, mNotices)
	mTail    = mm(mStatus, mEnt, mRemarks, mLinks, mPort43, mEvents)
)

func sm(j, f, l string) member { return member{j, f, "s", "", l, ""} }

var schema = map[string]*objType{}

func def(name, heading string, ms ...[]member) {
	schema[name] = &objType{name, heading, mm(ms...)}
}

func one(ms ...member) []member { return ms }

func init() {
	def("link", "Link", one(sm("value", "Value", "Value"), sm("rel", "Rel", "Rel"), sm("href", "Href", "Href"), member{"hreflang", "HrefLang", "[]s", "", "HrefLang", ""}, sm("title", "Title", "Title"), sm("media", "Media", "Media"), sm("type", "Type", "Type")))
	def("notice", "Notice", one(sm("title", "Title", "Title"), sm("type", "Type", "Type"), member{"description", "Description", "[]s", "", "Description", ""}), mLinks)
	def("remark", "Remark", one(sm("title", "Title", "Title"), sm("type", "Type", "Type"), member{"description", "Description", "[]s", "", "Description", ""}), mLinks)
	def("event", "Event", one(sm("eventAction", "Action", "Action"), sm("eventActor", "Actor", "Actor"), sm("eventDate", "Date", "Date")), mLinks)
	def("publicid", "Public ID", one(sm("type", "Type", "Type"), sm("identifier", "Identifier", "Identifier")))
	def("variantname", "Variant Name", common, one(sm("ldhName", "LDHName", "Domain Name"), sm("unicodeName", "UnicodeName", "Domain Name (Unicode)")))
	def("variant", "Variant", common, one(member{"relation", "Relation", "[]s", "", "Relation", ""}, sm("idnTable", "IDNTable", "IDN Table"), member{"variantNames", "VariantNames", "[]o", "variantname", "Variant Name", ""}))
	def("dsdata", "DSData", common, one(member{"keyTag", "KeyTag", "u64", "", "Key Tag", ""}, member{"algorithm", "Algorithm", "u8", "", "Algorithm", ""}, sm("digest", "Digest", "Digest"), member{"digestType", "DigestType", "u8", "", "DigestType", ""}), mEvents, mLinks)
	def("keydata", "Key", one(member{"flags", "Flags", "u16", "", "Flags", ""}, member{"protocol", "Protocol", "u8", "", "Protocol", ""}, member{"algorithm", "Algorithm", "u8", "", "Algorithm", ""}, sm("publicKey", "PublicKey", "Public Key")), mEvents, mLinks)
	def("securedns", "Secure DNS", common, one(member{"zoneSigned", "ZoneSigned", "b", "", "Zone Signed", ""}, member{"delegationSigned", "DelegationSigned", "b", "", "Delegation Signed", ""}, member{"maxSigLife", "MaxSigLife", "u64", "", "Max Signature Life", ""},
		member{"dsData", "DS", "[]o", "dsdata", "DSData", ""}, member{"keyData", "Keys", "[]o", "keydata", "Key", ""}))
	def("ipset", "IP Addresses", common, one(member{"v6", "V6", "[]s", "", "IPv6", ""}, member{"v4", "V4", "[]s", "", "IPv4", ""}))
	def("domain", "Domain", mTop, mHandle, one(sm("ldhName", "LDHName", "Domain Name"), sm("unicodeName", "UnicodeName", "Domain Name (Unicode)"), member{"variants", "Variants", "[]o", "variant", "Variant", "variants"},
		member{"nameservers", "Nameservers", "[]o", "nameserver", "Nameserver", ""}, member{"secureDNS", "SecureDNS", "o", "securedns", "Secure DNS", "securedns"}, member{"network", "Network", "o", "ip", "IP Network", ""}), mPIDs, mTail)
	def("nameserver", "Nameserver", mTop, mHandle, one(sm("ldhName", "LDHName", "Nameserver"), sm("unicodeName", "UnicodeName", "Nameserver (Unicode)"), member{"ipAddresses", "IPAddresses", "o", "ipset", "IP Addresses", ""}), mTail)
	def("entity", "Entity", mTop, mHandle, one(member{"vcardArray", "VCard", "vcard", "", "", ""}, member{"roles", "Roles", "[]s", "", "Role", ""}, member{"asEventActor", "AsEventActor", "[]o", "event", "AsEventActor", "events"},
		member{"networks", "Networks", "[]o", "ip", "IP Network", "nested"}, member{"autnums", "Autnums", "[]o", "autnum", "Autnum", "nested"}), mPIDs, mStatus, one(member{"entities", "Entities", "[]o", "entity", "Entity", "nested"}), mRemarks, mLinks, mPort43, mEvents)
	def("autnum", "Autnum", mTop, mHandle, one(member{"startAutnum", "StartAutnum", "u32", "", "StartAutnum", ""}, member{"endAutnum", "EndAutnum", "u32", "", "EndAutnum", ""}, sm("ipVersion", "IPVersion", "IP Version"), sm("name", "Name", "Name"), sm("type", "Type", "Type"), sm("country", "Country", "Country")), mTail)
	def("ip", "IP Network", mTop, mHandle, one(sm("startAddress", "StartAddress", "Start Address"), sm("endAddress", "EndAddress", "End Address"), sm("ipVersion", "IPVersion", "IP Version"), sm("name", "Name", "Name"), sm("type", "Type", "Type"), sm("country", "Country", "Country"), sm("parentHandle", "ParentHandle", "ParentHandle")), mTail)
	def("error", "Error", common, mConf, mNotices, one(member{"errorCode", "ErrorCode", "u16", "", "Error Code", ""}, sm("title", "Title", "Title"), member{"description", "Description", "[]s", "", "Description", ""}))
	def("help", "Help", common, mConf, mNotices)
	def("domains", "Domain Search Results", common, mConf, mNotices, one(member{"domainSearchResults", "Domains", "[]o", "domain", "Domain", ""}))
	def("nameservers", "Nameserver Search Results", common, mConf, mNotices, one(member{"nameserverSearchResults", "Nameservers", "[]o", "nameserver", "Nameserver", ""}))
	def("entitiesr", "Entity Search Results", common, mConf, mNotices, one(member{"entitySearchResults", "Entities", "[]o", "entity", "Entity", ""}))
}

// rootTypes can be a whole response; discriminator is the member that makes it so.
var rootTypes = []struct{ typ, key, val string }{
	{"domain", "objectClassName", `"domain"`}, {"entity", "objectClassName", `"entity"`}, {"nameserver", "objectClassName", `"nameserver"`},
	{"autnum", "objectClassName", `"autnum"`}, {"ip", "objectClassName", `"ip network"`}, {"error", "errorCode", "404"}, {"help", "", ""},
	{"domains", "domainSearchResults", "[]"}, {"nameservers", "nameserverSearchResults", "[]"}, {"entitiesr", "entitySearchResults", "[]"},
}

func (t *objType) member(name string) *member {
	for i := range t.members {
		if t.members[i].json == name {
			return &t.members[i]
		}
	}
	return nil
}

// --- reference decoding -------------------------------------------------------------------------

// decoded is a reference value: unset, or one of the forms below.
type decoded struct {
	set  bool
	str  string
	num  uint64
	bit  bool
	list []decoded
	obj  map[string]decoded // by Go field
	typ  *objType
	raw  map[string]any
	bad  map[string]bool // members that must carry a note
	any  any             // vcard source
}

var maxOf = map[string]float64{"u8": 255, "u16": 65535, "u32": 4294967295, "u64": 18446744073709551616}

// refDecode gives the documented value of src as kind. ok false: cannot be represented.
// noted is set when something inside src had to be left out.
func refDecode(kind, obj string, src any) (d decoded, ok bool, dropped bool) {
	switch kind {
	case "s":
		switch v := src.(type) {
		case string:
			return decoded{set: true, str: v}, true, false
		case nil:
			return decoded{set: true}, true, false
		case bool:
			return decoded{set: true, str: strconv.FormatBool(v)}, true, false
		case float64:
			return decoded{set: true, str: decimal(v)}, true, false
		}
		return decoded{}, false, false
	case "u8", "u16", "u32", "u64":
		switch v := src.(type) {
		case nil:
			return decoded{set: true}, true, false
		case bool:
			if v {
				return decoded{set: true, num: 1}, true, false
			}
			return decoded{set: true}, true, false
		case float64:
			b, _ := big.NewFloat(v).Int(nil)
			return fit(kind, b)
		case string:
			if v == "" {
				return decoded{}, false, false
			}
			for _, r := range v {
				if r < '0' || r > '9' {
					return decoded{}, false, false
				}
			}
			b, _ := new(big.Int).SetString(v, 10)
			return fit(kind, b)
		}
		return decoded{}, false, false
	case "b":
		switch v := src.(type) {
		case nil:
			return decoded{set: true}, true, false
		case bool:
			return decoded{set: true, bit: v}, true, false
		case float64:
			return decoded{set: true, bit: v != 0}, true, false
		case string:
			switch v {
			case "1", "t", "T", "true", "TRUE", "True":
				return decoded{set: true, bit: true}, true, false
			case "0", "f", "F", "false", "FALSE", "False":
				return decoded{set: true}, true, false
			}
		}
		return decoded{}, false, false
	case "vcard":
		if p, ok := refVCard(src, false); ok {
			return decoded{set: true, any: p}, true, false
		}
		return decoded{}, false, false
	case "[]s", "[]o":
		a, isA := src.([]any)
		if !isA {
			return decoded{}, false, false
		}
		d = decoded{set: true}
		for _, e := range a {
			x, ok, dr := refDecode(kind[2:], obj, e)
			if !ok {
				dropped = true
				continue
			}
			dropped = dropped || dr
			d.list = append(d.list, x)
		}
		return d, true, dropped
	case "o":
		m, isM := src.(map[string]any)
		if !isM {
			return decoded{}, false, false
		}
		t := schema[obj]
		d = decoded{set: true, typ: t, raw: m, obj: map[string]decoded{}, bad: map[string]bool{}}
		for i := range t.members {
			me := &t.members[i]
			v, has := m[me.json]
			if !has {
				continue
			}
			x, ok, dr := refDecode(me.kind, me.obj, v)
			if ok {
				d.obj[me.field] = x
			}
			if !ok || dr {
				d.bad[me.json] = true
			}
		}
		return d, true, false
	}
	harnessf("kind %q", kind)
	return
}

func fit(kind string, b *big.Int) (decoded, bool, bool) {
	max := new(big.Int).SetUint64(map[string]uint64{"u8": 255, "u16": 65535, "u32": 4294967295, "u64": 18446744073709551615}[kind])
	if b.Sign() < 0 || b.Cmp(max) > 0 {
		return decoded{}, false, false
	}
	return decoded{set: true, num: b.Uint64()}, true, false
}

// decimal writes a double as the shortest plain decimal that reads back the same.
func decimal(f float64) string {
	s := strconv.FormatFloat(f, 'g', -1, 64)
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return s
	}
	if r.IsInt() {
		if r.Sign() == 0 && strings.HasPrefix(s, "-") {
			return "-0"
		}
		return r.Num().String()
	}
	for p := 1; ; p++ {
		t := r.FloatString(p)
		if x, _ := new(big.Rat).SetString(t); x.Cmp(r) == 0 {
			return t
		}
	}
}

// compareDecoded says how the Go value differs from the reference, "" if it does not.
func compareDecoded(path, kind, obj string, want decoded, got reflect.Value) string {
	switch kind {
	case "s":
		if got.String() != want.str {
			return fmt.Sprintf("%s is %q, want %q", path, got.String(), want.str)
		}
	case "u8", "u16", "u32", "u64", "b":
		if got.IsNil() != !want.set {
			return fmt.Sprintf("%s set: %v, want %v", path, !got.IsNil(), want.set)
		}
		if !want.set {
			return ""
		}
		if kind == "b" {
			if got.Elem().Bool() != want.bit {
				return fmt.Sprintf("%s is %v, want %v", path, got.Elem().Bool(), want.bit)
			}
		} else if got.Elem().Uint() != want.num {
			return fmt.Sprintf("%s is %d, want %d", path, got.Elem().Uint(), want.num)
		}
	case "vcard":
		if got.IsNil() != !want.set {
			return fmt.Sprintf("%s set: %v, want %v", path, !got.IsNil(), want.set)
		}
		if want.set {
			return compareVCard(path, want.any.([]refProp), got)
		}
	case "[]s", "[]o":
		if got.Len() != len(want.list) {
			return fmt.Sprintf("%s has %d elements, want %d", path, got.Len(), len(want.list))
		}
		for i := range want.list {
			if m := compareDecoded(fmt.Sprintf("%s[%d]", path, i), kind[2:], obj, want.list[i], got.Index(i)); m != "" {
				return m
			}
		}
	case "o":
		if got.Kind() == reflect.Pointer {
			if got.IsNil() != !want.set {
				return fmt.Sprintf("%s set: %v, want %v", path, !got.IsNil(), want.set)
			}
			if !want.set {
				return ""
			}
			got = got.Elem()
		}
		t := schema[obj]
		for i := range t.members {
			me := &t.members[i]
			f := got.FieldByName(me.field)
			if !f.IsValid() {
				return fmt.Sprintf("%s has no field %s", path, me.field)
			}
			if m := compareDecoded(path+"."+me.field, me.kind, me.obj, want.obj[me.field], f); m != "" {
				return m
			}
		}
		return compareDecodeData(path, t, want, got)
	}
	return ""
}

type decodeData interface {
	Notes(string) []string
	Value(string) any
	Fields() []string
	UnknownFields() []string
}

func compareDecodeData(path string, t *objType, want decoded, got reflect.Value) string {
	f := got.FieldByName("DecodeData")
	if !f.IsValid() || f.IsNil() {
		return path + " has no DecodeData"
	}
	dd := f.Interface().(decodeData)
	seen := map[string]int{}
	for _, n := range dd.Fields() {
		seen[n]++
	}
	unk := map[string]int{}
	for _, n := range dd.UnknownFields() {
		unk[n]++
	}
	if len(seen) != len(want.raw) {
		return fmt.Sprintf("%s: Fields() = %v, want the %d members sent", path, dd.Fields(), len(want.raw))
	}
	for n, v := range want.raw {
		if seen[n] != 1 {
			return fmt.Sprintf("%s: member %q is listed %d times by Fields()", path, n, seen[n])
		}
		if !reflect.DeepEqual(dd.Value(n), v) {
			return fmt.Sprintf("%s: Value(%q) = %v, want %v", path, n, dd.Value(n), v)
		}
		wantUnk := 0
		if t.member(n) == nil {
			wantUnk = 1
		}
		if unk[n] != wantUnk {
			return fmt.Sprintf("%s: member %q is listed %d times by UnknownFields(), want %d", path, n, unk[n], wantUnk)
		}
		if want.bad[n] && len(dd.Notes(n)) == 0 {
			return fmt.Sprintf("%s: member %q was not decoded fully, but there is no note", path, n)
		}
	}
	if len(unk) > len(seen) {
		return fmt.Sprintf("%s: UnknownFields() = %v", path, dd.UnknownFields())
	}
	return ""
}

// parseJSON is for documents of the harness.
func parseJSON(s string) any {
	var v any
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		harnessf("document %s: %v", s, err)
	}
	return v
}

// good is a well-formed value for a member; tok makes its texts unique. depth bounds nested objects.
func good(me *member, tok string, depth int) string {
	switch me.kind {
	case "s":
		return strconv.Quote(tok)
	case "[]s":
		return fmt.Sprintf("[%q,%q]", tok+"a", tok+"b")
	case "u8":
		return "13"
	case "u16":
		return "404"
	case "u32":
		return "4294967295"
	case "u64":
		return "4503599627370497"
	case "b":
		return "true"
	case "vcard":
		return fmt.Sprintf(`["vcard",[["version",{},"text","4.0"],["fn",{},"text",%q]]]`, tok)
	case "o":
		return goodObj(schema[me.obj], tok, depth-1)
	case "[]o":
		if depth <= 0 {
			return "[]"
		}
		return "[" + goodObj(schema[me.obj], tok, depth-1) + "]"
	}
	return "null"
}

func goodObj(t *objType, tok string, depth int) string {
	var ms []string
	for i := range t.members {
		me := &t.members[i]
		if depth <= 0 && (me.kind == "o" || me.kind == "[]o") {
			continue
		}
		ms = append(ms, fmt.Sprintf("%q:%s", me.json, good(me, tok+"."+me.json, depth)))
	}
	return "{" + strings.Join(ms, ",") + "}"
}
