package h

import (
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/zzverif/nd"
)

func isDigit(b byte) bool { return b >= '0' && b <= '9' }

// digitVal is the value of a digit of "17", each explored as a path of its own.
func digitVal(b byte) int {
	for d := byte('0'); d < '9'; d++ {
		if b == d {
			return int(d - '0')
		}
	}
	return 9
}

// refNumbers reads the numbers of a text by the SVG grammar. valid tells whether the whole text is a
// list of numbers; if not, vals are the numbers found when all other text separates numbers.
func refNumbers(t string) (vals []float64, valid, big bool) {
	valid = true
	i, n := 0, len(t)
	needSep, comma := false, false
	for i < n {
		b := t[i]
		if b == ' ' || b == '\n' || b == '\t' || b == '\r' {
			i++
			continue
		}
		if b == ',' {
			if !needSep || comma {
				valid = false
			}
			comma = true
			i++
			continue
		}
		// a number?
		j := i
		neg := false
		if t[j] == '-' || t[j] == '+' {
			neg = t[j] == '-'
			j++
		}
		v, exp := 0.0, 0
		digits := 0
		for j < n && isDigit(t[j]) {
			v = v*10 + float64(int(t[j])-'0')
			j++
			digits++
		}
		if j < n && t[j] == '.' {
			frac := 0
			k := j + 1
			for k < n && isDigit(t[k]) {
				v = v*10 + float64(int(t[k])-'0')
				k++
				frac++
			}
			if digits+frac > 0 {
				digits += frac
				exp -= frac
				j = k
			}
		}
		if digits == 0 {
			valid = false
			i++
			continue
		}
		if j < n && (t[j] == 'e' || t[j] == 'E') {
			k := j + 1
			eneg := false
			if k < n && (t[k] == '-' || t[k] == '+') {
				eneg = t[k] == '-'
				k++
			}
			e, ed := 0, 0
			for k < n && isDigit(t[k]) {
				e = e*10 + digitVal(t[k])
				k++
				ed++
			}
			if ed > 0 {
				if eneg {
					e = -e
				}
				exp += e
				j = k
			}
		}
		if exp > 290 {
			valid = false // beyond the range of floats: may be rejected
		}
		if exp > 4 {
			big, exp = true, 0 // beyond the range of coordinates
		}
		p := 1.0
		for e := exp; e > 0; e-- {
			p *= 10
		}
		for e := exp; e < 0; e++ {
			p *= 10
		}
		if exp < 0 {
			v /= p
		} else {
			v *= p
		}
		if neg {
			v = -v
		}
		vals = append(vals, v)
		needSep, comma = true, false
		i = j
	}
	if comma {
		valid = false // a trailing comma
	}
	return vals, valid, big
}

const numberSinks = 3

// checkNumbers puts the text where numbers are read and compares what arrives.
func checkNumbers(sink int, t string, vals []float64, valid, big bool) {
	if len(vals) == 0 {
		return
	}
	for _, v := range vals {
		if v > 30000 || v < -30000 {
			big = true
		}
	}
	d := root()
	want := append([]float64{}, vals...)
	switch sink {
	case 0:
		d.Elem("path", "d", "M0 0H"+t)
	case 1:
		suffix := []float64{8, 9}
		t += " 8 9"
		if len(vals)%2 != 0 {
			t += " 7"
			suffix = append(suffix, 7)
		}
		want = append(want, suffix...)
		d.Elem("polyline", "points", t)
	case 2:
		if len(vals) > 2 {
			return
		}
		d.Elem("rect", "width", "1", "height", "1", "transform", "translate("+t+")")
	}
	r, err := svg.Parse(d.Done(), svg.StrictErrorMode)
	if err != nil {
		nd.Assert(!valid, "a number list is accepted")
		return
	}
	nd.Assert(len(r.SvgPaths) == 1, "one path")
	p := r.SvgPaths[0].Path
	if sink == 2 {
		m := r.SvgPaths[0].Style.Transform
		if big {
			return
		}
		nd.Assert(nd.Near(m.E, vals[0], 1e-6), "value of a number")
		if len(vals) == 2 {
			nd.Assert(nd.Near(m.F, vals[1], 1e-6), "value of a number")
		} else {
			nd.Assert(nd.Near(m.F, 0, 0), "number of numbers")
		}
		return
	}
	if sink == 1 {
		nd.Assert(len(p)*2 == len(want), "number of numbers")
	} else {
		nd.Assert(len(p) == len(want)+1, "number of numbers")
	}
	if big {
		return
	}
	for i, v := range want {
		if sink == 0 {
			_, q := opParts(p[i+1])
			nd.Assert(nearFx(q[0].X, v, px+1e-6), "value of a number")
			continue
		}
		_, q := opParts(p[i/2])
		if i%2 == 0 {
			nd.Assert(nearFx(q[0].X, v, px+1e-6), "value of a number")
		} else {
			nd.Assert(nearFx(q[0].Y, v, px+1e-6), "value of a number")
		}
	}
}

// Any short text.
func C03_text() {
	n := 5
	if nd.Thorough() {
		n = 6
	}
	nd.Bound("every text of 1 to 5 (thorough: 6) bytes over 0 7 . - + e E comma space in path data and point lists")
	t := nd.Text("t", 1+nd.Choice("len", n), "07.-+eE, ")
	vals, valid, big := refNumbers(t)
	checkNumbers(nd.Choice("sink", 2), t, vals, valid, big)
}

// Lists of well-formed numbers in all notations and separations.
func C03_list() {
	nd.Bound("two numbers, or three in fewer notations, each with an optional sign, digits before and/or after the point, an optional exponent with e or E and optional sign, in all separations the grammar allows, with every digit; in path data, point lists and transforms")
	sink := nd.Choice("sink", numberSinks)
	count := 2
	if nd.Thorough() && sink == 0 {
		count += nd.Choice("count", 2)
	}
	t := ""
	for i := 0; i < count; i++ {
		sign := []string{"", "-", "+"}[nd.Choice("sign", 3)]
		forms, exps := 5, 6
		if count == 3 || !nd.Thorough() && i == 1 {
			forms, exps = 3, 2
		}
		form := nd.Choice("form", forms)
		exp := []string{"", "e1", "E-2", "e+1", "E+1", "e-1"}[nd.Choice("exp", exps)]
		dg := func() string { return string(nd.Byte("d", "123456789")) }
		num := ""
		switch form {
		case 0:
			num = dg() + dg()
		case 1:
			num = "." + dg()
		case 2:
			num = dg() + "." + dg()
		case 3:
			num = dg()
		case 4:
			num = dg() + "."
		}
		if i > 0 {
			prevPoint := false
			for k := len(t) - 1; k >= 0 && t[k] != ' ' && t[k] != ',' && t[k] != '\n' && t[k] != '-' && t[k] != '+'; k-- {
				if t[k] == '.' || t[k] == 'e' || t[k] == 'E' {
					prevPoint = true
				}
			}
			seps := 4
			if sign != "" || form == 1 && prevPoint {
				seps = 5
			}
			t += []string{" ", ",", " , ", "\n", ""}[nd.Choice("sep", seps)]
		}
		t += sign + num + exp
	}
	vals, valid, big := refNumbers(t)
	nd.Assert(valid, "harness: a valid list")
	nd.Assert(len(vals) == count, "harness: all numbers")
	checkNumbers(sink, t, vals, true, big)
}

// Every kind of white space around numbers, commas and commands.
func C03_space() {
	nd.Bound("four numbers (integers, fractions, exponents, signs; symbolic digits) with 12 kinds of white space and commas between them, 6 before and 6 after; in path data between two other commands, in point lists and (two numbers) transforms")
	seps := []string{" ", ",", "\t", "\r", "\n", "\r\n", "  ", " ,", ", ", "\t,\r\n", ",\t\t", " \n \r , \t "}
	ends := []string{"", " ", "\t", "\r", "\n", "\r\n \t"}
	sink := nd.Choice("sink", 4)
	sep := seps[nd.Choice("sep", len(seps))]
	b := nd.Choice("before", len(ends))
	before, after := ends[b], ends[(b*5+nd.Choice("after", 2))%len(ends)]
	dg := func() string { return string(nd.Byte("d", "123456789")) }
	nums := []string{dg() + "5", "-" + dg() + ".25", dg() + "e1", "+." + dg()}
	if k := nd.Choice("first", 4); k > 0 {
		nums[0], nums[k] = nums[k], nums[0]
	}
	if sink == 2 {
		nums = nums[:2]
	}
	t := before
	for i, n := range nums {
		if i > 0 {
			t += sep
		}
		t += n
	}
	t += after
	vals, valid, big := refNumbers(t)
	nd.Assert(valid, "harness: a valid list")
	nd.Assert(len(vals) == len(nums), "harness: all numbers")
	if sink < 3 {
		checkNumbers(sink, t, vals, true, big)
		return
	}
	r := parseOK(root().Elem("path", "d", before+"M"+before+"3"+sep+"4"+after+"H"+t+"V"+before+"6"+after+"z"+after), "doc")
	nd.Assert(len(r.SvgPaths) == 1, "one path")
	want := []zop{{'M', []float64{3, 4}}}
	for _, v := range vals {
		want = append(want, zop{'L', []float64{v, 4}})
	}
	want = append(want, zop{'L', []float64{vals[len(vals)-1], 6}}, zop{'Z', nil})
	checkPath("path", r.SvgPaths[0].Path, want, px+1e-6)
}
