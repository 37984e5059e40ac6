package main

import (
	"fmt"
	"strconv"
	"strings"
)

// floatList has floats whose shortest numerals have few and many digits, with
// and without an exponent, at the ends of the range, and next to powers of ten.
const floatList = `0 1 2 10 100 123456 1e15 1e16 1e17 999999999999999 9007199254740991 9007199254740993 1e20 1e21 1e22 1e23 123456789012345680000 1.5 0.5 0.1 0.2 0.3 0.30000000000000004 3.141592653589793 2.718281828459045 0.3333333333333333 0.6666666666666666 1.1 123456.789 123456789.123 0.000123 0.0001 0.00001 1e-5 1.5e-5 1e-6 1e-7 1.234567e-7 12345.678901234567 1e100 1.5e100 1.7976931348623157e308 2.2250738585072014e-308 5e-324 4.9e-320 1e-300 1e300 6.02214076e23 1.6e-19`

func checkC32(p *Prog, r *Report) {
	for _, s := range strings.Fields(floatList) {
		for _, sign := range []string{"", "-"} {
			f, err := strconv.ParseFloat(sign+s, 64)
			if err != nil || f == 0 && sign != "" {
				continue
			}
			num := floatText(f)
			// the string that convert makes of it
			for _, op := range []string{"(parse-number $)", "(convert $ <float>)"} {
				c := textCases(fmt.Sprintf("(convert %s <string>) ; %s -> %s", num, op, num))[0]
				r.count("conversions", 1)
				where := "-"
				if b := p.Builtin("convert"); b != nil && b.Fn != nil {
					where = p.pos(b.Fn.Pos())
				}
				for i, b := range textRun(p, r, c) {
					r.add(fmt.Sprintf("%s/%d", c, i), where, "%s %s", c, b)
				}
			}
			for _, c := range []formatCase{
				{op: "format", control: "~S", dest: "nil"},
				{op: "format", control: "~A", dest: "nil"},
				{op: "format", control: "~S", dest: "t"},
				{op: "format", control: "x ~A", dest: "stream"},
			} {
				var got []string
				c.args, c.got = []string{"f" + num}, &got
				r.count("prints", 1)
				where := "-"
				if b := p.Builtin(c.op); b != nil && b.Fn != nil {
					where = p.pos(b.Fn.Pos())
				}
				for i, b := range formatRun(p, r, c) {
					r.add(fmt.Sprintf("%s/%d", c, i), where, "%s %s", c, b)
				}
				for _, text := range uniqStrings(got) {
					r.count("texts read", 1)
					ways, problem := readText(p, r, strings.TrimPrefix(text, "x ")+" ")
					if problem != "" {
						r.add("reader", "-", "%s", problem)
						return
					}
					good := 0
					var bad []string
					definite := false
					for _, w := range ways {
						if w.got == num && w.left == " " {
							good++
							continue
						}
						bad = append(bad, w.got)
						definite = definite || !w.unsure
					}
					if len(bad) > 0 && !definite {
						r.count("undecided", 1)
						r.sample("undecided: %q", text)
						continue
					}
					for i, b := range uniqStrings(bad) {
						r.add(fmt.Sprintf("%s read/%d", c, i), where, "%s writes %q, which is read as %s", c, text, b)
					}
				}
			}
		}
	}
	r.floor("prints", 200)
	r.floor("conversions", 150)
	r.floor("texts read", 300)
}
