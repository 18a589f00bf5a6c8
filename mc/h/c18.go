package main

import (
	"fmt"
	"math/big"
	"strconv"

	"github.com/openrdap/rdap"
)

func init() {
	// every numeric and boolean member, and a document around its value
	type field struct{ path, kind, before, after string }
	fields := []field{
		{"errorCode", "u16", `{"title":"t","errorCode":`, `}`},
		{"startAutnum", "u32", `{"objectClassName":"autnum","handle":"h","startAutnum":`, `}`},
		{"endAutnum", "u32", `{"objectClassName":"autnum","endAutnum":`, `,"startAutnum":7}`},
		{"maxSigLife", "u64", `{"objectClassName":"domain","secureDNS":{"maxSigLife":`, `}}`},
		{"keyTag", "u64", `{"objectClassName":"domain","secureDNS":{"dsData":[{"keyTag":`, `}]}}`},
		{"ds.algorithm", "u8", `{"objectClassName":"domain","secureDNS":{"dsData":[{},{"algorithm":`, `,"digest":"d"}]}}`},
		{"digestType", "u8", `{"objectClassName":"domain","secureDNS":{"dsData":[{"digestType":`, `}]}}`},
		{"flags", "u16", `{"objectClassName":"domain","secureDNS":{"keyData":[{"flags":`, `}]}}`},
		{"protocol", "u8", `{"objectClassName":"domain","secureDNS":{"keyData":[{"protocol":`, `}]}}`},
		{"key.algorithm", "u8", `{"objectClassName":"domain","secureDNS":{"keyData":[{"algorithm":`, `}]}}`},
		{"zoneSigned", "b", `{"objectClassName":"domain","secureDNS":{"zoneSigned":`, `}}`},
		{"delegationSigned", "b", `{"objectClassName":"domain","secureDNS":{"delegationSigned":`, `}}`},
		{"entity.autnums.startAutnum", "u32", `{"objectClassName":"entity","autnums":[{"startAutnum":`, `}]}`},
	}
	rootOf := map[string]int{"errorCode": 5, "startAutnum": 3, "endAutnum": 3, "entity.autnums.startAutnum": 1}
	var lits []string
	register(&Check{
		ID:   "C18",
		Rule: "every numeric and boolean member x number literals at and around every power of two up to 2^65 (signs, fractions, exponents), all integers 0..N, the same as text, all texts up to the length bound over digits, signs, dots, spaces and letters, booleans, null, arrays, objects",
		Setup: func(c *Ctx) {
			add := func(s ...string) { lits = append(lits, s...) }
			for k := 0; k <= 65; k++ {
				b := new(big.Int).Lsh(big.NewInt(1), uint(k))
				for d := int64(-2); d <= 2; d++ {
					n := new(big.Int).Add(b, big.NewInt(d))
					s := n.String()
					add(s, strconv.Quote(s))
					if n.Sign() > 0 {
						add("-"+s, strconv.Quote("-"+s), s+".5", s+".25", strconv.Quote(s+".5"), s+"e0", s+"0e-1", strconv.Quote("+"+s), strconv.Quote(" "+s), strconv.Quote("0"+s), s+".9375")
					}
				}
			}
			for n := 0; n <= Pick(c, 70000, 300000); n++ {
				add(strconv.Itoa(n))
				if n < 2000 || n%997 == 0 {
					add(strconv.Quote(strconv.Itoa(n)))
				}
				if n < 1000 {
					add("-"+strconv.Itoa(n+1), strconv.Itoa(n)+".5")
				}
			}
			add("1e2", "1E2", "1e+2", "1e19", "1e20", "1e300", "-1e300", "1e-5", "2.55e2", "2.56e2", "6.5535e4", "1.8446744073709552e19", "1.8446744073709550e19", "0.0", "0e5", "null", "true", "false", "[]", "{}", "[1]", `{"a":1}`, `[[]]`)
			for _, w := range words([]string{"0", "1", "9", "-", "+", ".", "e", " ", "x", "_", "t", "T", "\u0661"}, Pick(c, 3, 4)) {
				add(strconv.Quote(w))
			}
			for _, w := range []string{"true", "TRUE", "True", "tRUE", "false", "FALSE", "False", "yes", "no", "on", "null", "nil", "NaN", "Inf", "-Inf", "0x10", "0b1", "0o7", "1e2", "1 ", "\t1", "1\n", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "f", "F", "t"} {
				add(strconv.Quote(w))
			}
		},
		Bounds: func(c *Ctx) map[string]any {
			return map[string]any{"fields": len(fields), "literals": len(lits), "integers_exhaustive_to": Pick(c, 70000, 300000), "text_length": Pick(c, 3, 4)}
		},
		Assumptions: []string{"JSON numbers are read as IEEE doubles (RFC 8259 interoperable range): above 2^53 the value sent means the nearest double", "numbers strictly between -1 and 0 are not constrained"},
		Run: func(c *Ctx) {
			f := Of(c, "field", fields)
			n := 64
			lo := c.Choose("slice", n)
			c.Shard()
			root := rootOf[f.path]
			p := objPath{root: root}
			for k := lo; k < len(lits); k += n {
				v := parseJSON(lits[k])
				if x, ok := v.(float64); ok && x < 0 && x > -1 {
					continue
				}
				_, ok, _ := refDecode(f.kind, "", v)
				c.State(f.path, ok, fmt.Sprintf("%T", v))
				checkDecode(c, p, f.before+lits[k]+f.after)
			}
			_ = rdap.Client{}
		},
	})
}
