package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/openrdap/rdap"
)

// refProp is the reference form of a jCard property.
type refProp struct {
	name   string
	params map[string][]string
	typ    string
	value  any
}

func refValue(v any, depth int) bool {
	switch t := v.(type) {
	case nil, string, bool, float64:
		return true
	case []any:
		if depth == 3 {
			return false
		}
		for _, e := range t {
			if !refValue(e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func refProperty(v any) (refProp, bool) {
	a, ok := v.([]any)
	if !ok || len(a) < 4 {
		return refProp{}, false
	}
	name, ok1 := a[0].(string)
	pm, ok2 := a[1].(map[string]any)
	typ, ok3 := a[2].(string)
	if !ok1 || !ok2 || !ok3 {
		return refProp{}, false
	}
	p := refProp{name: name, typ: typ, params: map[string][]string{}}
	for k, v := range pm {
		switch t := v.(type) {
		case string:
			p.params[k] = []string{t}
		case []any:
			for _, e := range t {
				if s, ok := e.(string); ok {
					p.params[k] = append(p.params[k], s)
				}
			}
		}
	}
	p.value = a[3]
	if len(a) > 4 {
		p.value = a[3:]
	}
	return p, refValue(p.value, 0)
}

// refVCard decodes a jCard as documented; lenient keeps the valid properties only.
func refVCard(src any, lenient bool) ([]refProp, bool) {
	top, ok := src.([]any)
	if !ok || len(top) != 2 {
		return nil, false
	}
	if s, ok := top[0].(string); !ok || s != "vcard" {
		return nil, false
	}
	ps, ok := top[1].([]any)
	if !ok {
		return nil, false
	}
	out := []refProp{}
	for _, x := range ps {
		p, ok := refProperty(x)
		if !ok {
			if lenient {
				continue
			}
			return nil, false
		}
		out = append(out, p)
	}
	return out, true
}

func leaves(v any) []string {
	switch t := v.(type) {
	case nil:
		return []string{""}
	case string:
		return []string{t}
	case bool:
		if t {
			return []string{"true"}
		}
		return []string{"false"}
	case float64:
		return []string{decimal(t)}
	case []any:
		var out []string
		for _, e := range t {
			out = append(out, leaves(e)...)
		}
		return out
	}
	return nil
}

func compareVCard(path string, want []refProp, got reflect.Value) string {
	vc, ok := got.Interface().(*rdap.VCard)
	if !ok {
		return path + " is not a vCard"
	}
	if len(vc.Properties) != len(want) {
		return fmt.Sprintf("%s has %d properties, want %d", path, len(vc.Properties), len(want))
	}
	for i, w := range want {
		p := vc.Properties[i]
		if p.Name != w.name || p.Type != w.typ {
			return fmt.Sprintf("%s: property %d is %q type %q, want %q type %q", path, i, p.Name, p.Type, w.name, w.typ)
		}
		for k, v := range w.params {
			if !eqStrings(p.Parameters[k], v) {
				return fmt.Sprintf("%s: property %d parameters %v, want %v", path, i, p.Parameters, w.params)
			}
		}
		for k, v := range p.Parameters {
			if len(v) > 0 && !eqStrings(w.params[k], v) {
				return fmt.Sprintf("%s: property %d parameters %v, want %v", path, i, p.Parameters, w.params)
			}
		}
		if !sameValue(p.Value, w.value) {
			return fmt.Sprintf("%s: property %d value %#v, want %#v", path, i, p.Value, w.value)
		}
		if !eqStrings(p.Values(), leaves(w.value)) {
			return fmt.Sprintf("%s: property %d flattened %q, want %q", path, i, p.Values(), leaves(w.value))
		}
	}
	return ""
}

func sameValue(a, b any) bool {
	x, ok1 := a.([]any)
	y, ok2 := b.([]any)
	if ok1 != ok2 {
		return false
	}
	if !ok1 {
		return reflect.DeepEqual(a, b)
	}
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !sameValue(x[i], y[i]) {
			return false
		}
	}
	return true
}

// reference accessors over the reference form
func refFirst(ps []refProp, name string) *refProp {
	for i := range ps {
		if ps[i].name == name {
			return &ps[i]
		}
	}
	return nil
}

func refJoined(ps []refProp, name string) string {
	p := refFirst(ps, name)
	if p == nil {
		return ""
	}
	return strings.Join(leaves(p.value), " ")
}

// refAdr gives the values of one address component.
func refAdr(ps []refProp, i int) []string {
	p := refFirst(ps, "adr")
	if p == nil {
		return nil
	}
	a, ok := p.value.([]any)
	if !ok {
		a = []any{p.value}
	}
	if i >= len(a) {
		return nil
	}
	return leaves(a[i])
}

func refTel(ps []refProp, fax bool) string {
	for i := range ps {
		if ps[i].name != "tel" {
			continue
		}
		ts, has := ps[i].params["type"]
		match := !has && !fax
		for _, t := range ts {
			if fax && t == "fax" || !fax && t == "voice" {
				match = true
			}
		}
		if match {
			if l := leaves(ps[i].value); len(l) > 0 {
				return l[0]
			}
		}
	}
	return ""
}
