package main

// Models of library functions, and the harness primitives.

import (
	"errors"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(it *Interp, fr *frame, fn *ssa.Function, args []value) value

var intrinsics map[string]intrinsic
var skipInit = map[string]bool{"os": true, "runtime": true, "syscall": true, "time": true, "log": true, "reflect": true, "encoding/xml": true, "net/http": true, "internal/poll": true, "sync": true, "fmt": true, "bufio": true, "image/png": true, "image/jpeg": true}

func findIntrinsic(fn *ssa.Function) intrinsic {
	n := fn.String()
	if fn.Origin() != nil {
		n = fn.Origin().String()
	}
	return intrinsics[n]
}

func note(format string, args ...any) {}

func errIface(it *Interp, err error) value {
	if err == nil {
		return iface{}
	}
	return it.mkError(err.Error())
}

func init() {
	nd := ndPath + "."
	intrinsics = map[string]intrinsic{
		nd + "Float": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.inputFloat(a[0].(string), a[1].(float64), a[2].(float64))
		},
		nd + "Int": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.inputInt(a[0].(string), a[1].(int64), a[2].(int64))
		},
		nd + "Choice": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.choice(a[0].(string), a[1].(int64))
		},
		nd + "Byte": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.inputByte(a[0].(string), a[1].(string))
		},
		nd + "Text": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			n := int(a[1].(int64))
			b := make([]value, n)
			for i := range b {
				b[i] = it.c.inputByte(fmt.Sprintf("%s[%d]", a[0].(string), i), a[2].(string))
			}
			return it.c.mkStr(b)
		},
		nd + "Together": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			it.together(a[0], a[1], fr)
			return nil
		},
		nd + "Assume": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			it.c.assumeB(a[0])
			return nil
		},
		nd + "Assert": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			msg, _ := a[1].(string)
			it.c.assert(a[0], msg)
			return nil
		},
		nd + "Near": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.near(a[0], a[1], a[2].(float64))
		},
		nd + "NearI": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.near(it.c.intToFloat(it.num(a[0]), 64), it.c.intToFloat(it.num(a[1]), 64), it.c.intToFloat(a[2], 64).(float64))
		},
		nd + "And": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			var r value = true
			for _, b := range a[0].([]value) {
				r = it.c.andB(r, b)
			}
			return r
		},
		nd + "Or": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			var r value = false
			for _, b := range a[0].([]value) {
				r = it.c.orB(r, b)
			}
			return r
		},
		nd + "Implies": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.orB(it.c.notB(a[0]), a[1])
		},
		nd + "EqS": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.strEqB(a[0], a[1])
		},
		nd + "EqI": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.intCmp("==", a[0], a[1], intKind{64, true})
		},
		nd + "SelF": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if it.c.truth(a[0]) {
				return a[1]
			}
			return a[2]
		},
		nd + "Fmt": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.fmtNum(a[0], int(a[1].(int64)))
		},
		nd + "FmtInt": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.fmtInt(a[0])
		},
		nd + "Observe": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			f := a[1].(iface)
			v := f.v
			if f.t != nil && !observable(v) {
				return nil
			}
			it.c.obs = append(it.c.obs, Observation{a[0].(string), v})
			return nil
		},
		nd + "Thorough": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return it.c.w.run.thorough },
		nd + "Symbolic": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return true },
		nd + "LogCount": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.logCount
		},
		nd + "Cover": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			it.c.covers = append(it.c.covers, a[0].(string))
			return nil
		},
		nd + "Bound": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			it.c.bounds = append(it.c.bounds, a[0].(string))
			return nil
		},
		nd + "Try": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.try(a[0])
		},
		nd + "OpenCount": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			n, _ := it.side["opens"].(int64)
			return n
		},
		nd + "PutFile": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			name := fmt.Sprintf("/nd/file%d", len(it.side))
			it.side["file:"+name] = a[0]
			return name
		},
		// decoder
		"encoding/xml.NewDecoder": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
			v := zero(pt.Elem())
			if i := fieldIndex(pt.Elem(), "Strict"); i >= 0 {
				v.(structure)[i] = true
			}
			p := &v
			it.side[fmt.Sprintf("dec:%p", p)] = a[0]
			return p
		},
		"golang.org/x/net/html/charset.NewReaderLabel": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.call(it.t.nd.Func("ReaderLabel"), a, nil, fr)
		},
		"(*encoding/xml.Decoder).Token":    decToken("NextToken"),
		"(*encoding/xml.Decoder).RawToken": decToken("NextRaw"),
		"(*encoding/xml.Decoder).Skip":     decToken("SkipElement"),
		"(*encoding/xml.Decoder).InputOffset": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return int64(0)
		},
		// files
		"os.Open": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if d, ok := it.side["file:"+a[0].(string)]; ok {
				pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
				v := zero(pt.Elem())
				p := &v
				it.side[fmt.Sprintf("open:%p", p)] = d
				n, _ := it.side["opens"].(int64)
				it.side["opens"] = n + 1
				return tuple{p, iface{}}
			}
			return tuple{(*value)(nil), it.mkError("open: no such file or directory")}
		},
		"os.ReadFile": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if d, ok := it.side["file:"+a[0].(string)]; ok {
				return tuple{[]value{d}, iface{}}
			}
			return tuple{[]value(nil), it.mkError("open: no such file or directory")}
		},
		"(*os.File).Close": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			k := fmt.Sprintf("open:%p", a[0])
			if a[0].(*value) == nil {
				return it.mkError("invalid argument")
			}
			if it.side["closed"+k] != nil {
				return it.mkError("file already closed")
			}
			it.side["closed"+k] = true
			n, _ := it.side["opens"].(int64)
			it.side["opens"] = n - 1
			return iface{}
		},
		// logging
		"errors.New": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return it.mkError(a[0]) },
		"errors.Is": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.errorsIs(a[0].(iface), a[1].(iface))
		},
		"fmt.Errorf": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			msg, wrapped := it.sprintf(a[0], a[1].([]value))
			if wrapped != nil {
				t := it.t.prog.ImportedPackage("fmt").Type("wrapError").Type()
				var cell value = structure{msg, *wrapped}
				return iface{types.NewPointer(t), &cell}
			}
			return it.mkError(msg)
		},
		"fmt.Sprintf": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			msg, _ := it.sprintf(a[0], a[1].([]value))
			return msg
		},
		"fmt.Sprint": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.sprint(a[0].([]value), false)
		},
		"fmt.Fprintf": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			msg, _ := it.sprintf(a[1], a[2].([]value))
			return it.writeTo(a[0].(iface), msg)
		},
		"fmt.Fprint": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.writeTo(a[0].(iface), it.sprint(a[1].([]value), false))
		},
		"fmt.Sprintln": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.sprint(a[0].([]value), true)
		},
		"fmt.Fprintln": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.writeTo(a[0].(iface), it.sprint(a[1].([]value), true))
		},
		"errors.As": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.errorsAs(a[0].(iface), a[1].(iface))
		},
		"sort.Slice":                   sortSlice,
		"sort.SliceStable":             sortSlice,
		"(*strings.Builder).copyCheck": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return nil },
		"(*strings.Builder).grow":      func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return nil },
		"(*strings.Builder).Grow":      func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return nil },
		"internal/stringslite.Clone":   func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return a[0] },
		"strings.Clone":                func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return a[0] },
		"internal/bytealg.IndexByteString": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.indexByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.IndexByte": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.indexByte(a[0].([]value), a[1])
		},
		"internal/bytealg.LastIndexByteString": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			b := strBytes(a[0])
			for i := len(b) - 1; i >= 0; i-- {
				if it.c.truth(it.c.intCmp("==", b[i], a[1], intKind{8, false})) {
					return int64(i)
				}
			}
			return int64(-1)
		},
		"internal/bytealg.CountString": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			n := int64(0)
			for _, b := range strBytes(a[0]) {
				if it.c.truth(it.c.intCmp("==", b, a[1], intKind{8, false})) {
					n++
				}
			}
			return n
		},
		"internal/bytealg.IndexString": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return int64(it.indexStr(a[0], a[1]))
		},
		"strings.Index": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return int64(it.indexStr(a[0], a[1]))
		},
		"internal/stringslite.Index": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return int64(it.indexStr(a[0], a[1]))
		},
		"strings.LastIndex": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			n, m := strLen(a[0]), strLen(a[1])
			for i := n - m; i >= 0; i-- {
				if it.c.strEq(it.c.strSlice(a[0], i, i+m), a[1]) {
					return int64(i)
				}
			}
			return int64(-1)
		},
		"strings.Count": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if strLen(a[1]) == 0 {
				return int64(utf8.RuneCountInString(a[0].(string)) + 1)
			}
			n := int64(0)
			s := a[0]
			for {
				i := it.indexStr(s, a[1])
				if i < 0 {
					return n
				}
				n++
				s = it.c.strSlice(s, i+strLen(a[1]), strLen(s))
			}
		},
		"strings.ToLower": caseMap(false),
		"strings.ToUpper": caseMap(true),
		"strconv.ParseFloat": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if s, ok := a[0].(string); ok {
				if n, ok := it.c.texts[s]; ok {
					return tuple{it.c.textFloat(n), iface{}}
				}
				f, err := strconv.ParseFloat(s, int(a[1].(int64)))
				if err == nil {
					return tuple{f, iface{}}
				}
			}
			return it.interpret(fn, a, fr)
		},
		"internal/strconv.parseFloat64": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			// d * 10^p with the given sign bit, correctly rounded
			p := int(it.c.asInt(a[1]))
			neg := it.c.asInt(a[2]) != 0
			if n, ok := a[0].(*Num); ok && (p > 280 || p < -280) {
				a[0] = it.c.concretize(n)
			}
			if n, ok := a[0].(*Num); ok {
				e := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(p, -p))), nil)
				f := new(big.Rat).SetInt(e)
				if p < 0 {
					f.Inv(f)
				}
				if neg {
					f.Neg(f)
				}
				g, _ := f.Float64()
				lo, hi := n.lo*g, n.hi*g
				if neg {
					lo, hi = hi, lo
				}
				l, h := widen(lo, hi)
				return tuple{it.c.mkFloat(n.p.scale(f), l, h, 0, 64, true), iface{}}
			}
			t := fmt.Sprintf("%de%d", uint64(it.c.asInt(a[0])), p)
			if neg {
				t = "-" + t
			}
			f, err := strconv.ParseFloat(t, 64)
			if err != nil {
				return tuple{f, it.mkError(err.Error())}
			}
			return tuple{f, iface{}}
		},
		"strconv.Atoi": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if s, ok := a[0].(string); ok {
				if n, ok := it.c.texts[s]; ok && n.e == 0 && it.c.polyInt(n.p) {
					return tuple{n, iface{}}
				}
			}
			return it.interpret(fn, a, fr)
		},
		"strconv.ParseInt": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if s, ok := a[0].(string); ok {
				if n, ok := it.c.texts[s]; ok && n.e == 0 && it.c.polyInt(n.p) && a[1].(int64) == 10 {
					return tuple{n, iface{}}
				}
			}
			return it.interpret(fn, a, fr)
		},
		"strconv.FormatFloat": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if n, ok := a[0].(*Num); ok {
				return it.c.decimalText(n, byte(it.c.asInt(a[1])), int(a[2].(int64)), int(a[3].(int64)))
			}
			return strconv.FormatFloat(a[0].(float64), byte(a[1].(int64)), int(a[2].(int64)), int(a[3].(int64)))
		},
		"strconv.AppendFloat": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			var s value
			if n, ok := a[1].(*Num); ok {
				s = it.c.decimalText(n, byte(it.c.asInt(a[2])), int(a[3].(int64)), int(a[4].(int64)))
			} else {
				s = strconv.FormatFloat(a[1].(float64), byte(a[2].(int64)), int(a[3].(int64)), int(a[4].(int64)))
			}
			return it.appendSlice(a[0].([]value), strBytes(s), types.Typ[types.Byte])
		},
		"strconv.Itoa": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if _, ok := a[0].(int64); ok {
				return strconv.Itoa(int(a[0].(int64)))
			}
			return it.c.fmtInt(a[0])
		},
		"(*sync.Once).Do": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			k := fmt.Sprintf("once:%p", a[0])
			if it.side[k] == nil {
				it.side[k] = true
				it.callValue(a[1], nil, fr)
			}
			return nil
		},
		"(*sync.Pool).Get": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			k := fmt.Sprintf("pool:%p", a[0])
			if l, ok := it.side[k].([]value); ok && len(l) > 0 {
				it.side[k] = l[:len(l)-1]
				return l[len(l)-1]
			}
			st := (*a[0].(*value)).(structure)
			nf := st[len(st)-1]
			if f, ok := nf.(*ssa.Function); ok && f == nil {
				return iface{}
			}
			return it.callValue(nf, nil, fr)
		},
		"(*sync.Pool).Put": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			k := fmt.Sprintf("pool:%p", a[0])
			l, _ := it.side[k].([]value)
			it.side[k] = append(append([]value{}, l...), a[1])
			return nil
		},
		"math.Max": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return it.fminmax("max", a[0], a[1]) },
		"math.Min": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return it.fminmax("min", a[0], a[1]) },
		"math.Atan2": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.atan2(a[0], a[1])
		},
		"math.Hypot": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				return math.Hypot(x, y)
			}
			c := it.c
			return c.math1("sqrt", c.floatOp("+", c.floatOp("*", a[0], a[0], 64), c.floatOp("*", a[1], a[1], 64), 64), math.Sqrt)
		},
		"math.Sincos": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return tuple{it.c.math1("sin", a[0], math.Sin), it.c.math1("cos", a[0], math.Cos)}
		},
		"math.IsNaN": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			f, ok := a[0].(float64)
			return ok && math.IsNaN(f)
		},
		"math.IsInf": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			f, ok := a[0].(float64)
			return ok && math.IsInf(f, int(it.c.asInt(a[1])))
		},
		"math.Signbit": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if f, ok := a[0].(float64); ok {
				return math.Signbit(f)
			}
			return it.c.cmpV("<", a[0], 0.0)
		},
		"math.Copysign": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			neg := false
			if f, ok := a[1].(float64); ok {
				neg = math.Signbit(f)
			} else {
				neg = it.c.truth(it.c.cmpV("<", a[1], 0.0))
			}
			x := it.c.math1("abs", a[0], math.Abs)
			if neg {
				return it.c.negFloat(x)
			}
			return x
		},
		"math.Pow": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			y, ok := a[1].(float64)
			if x, okx := a[0].(float64); ok && okx {
				return math.Pow(x, y)
			}
			if ok && y == math.Trunc(y) && y >= 1 && y <= 8 {
				r := a[0]
				for i := 1; i < int(y); i++ {
					r = it.c.floatOp("*", r, a[0], 64)
				}
				return r
			}
			if ok && y == 0.5 {
				return it.c.math1("sqrt", a[0], math.Sqrt)
			}
			unsupported("math.Pow")
			return nil
		},
		"math.Mod": func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			x, okx := a[0].(float64)
			y, oky := a[1].(float64)
			if okx && oky {
				return math.Mod(x, y)
			}
			if !oky || y == 0 {
				unsupported("math.Mod")
			}
			c := it.c
			q := c.math1("trunc", c.floatOp("/", a[0], y, 64), math.Trunc)
			return c.floatOp("-", a[0], c.floatOp("*", q, y, 64), 64)
		},
	}
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Abs": math.Abs, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round} {
		name, f := strings.ToLower(n), f
		intrinsics["math."+n] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			return it.c.math1(name, a[0], f)
		}
	}
	for n, f := range map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsNumber": unicode.IsNumber, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPunct": unicode.IsPunct, "IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint, "IsSymbol": unicode.IsSymbol} {
		f := f
		intrinsics["unicode."+n] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if x, ok := a[0].(int64); ok {
				return f(rune(x))
			}
			if v, g := it.c.oneDom(a[0]); v != nil {
				return it.c.tabBool(v, func(i int) bool { return f(rune(g(i))) })
			}
			return f(rune(it.c.asInt(a[0])))
		}
	}
	for n, f := range map[string]func(rune) rune{"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper} {
		f := f
		intrinsics["unicode."+n] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			if x, ok := a[0].(int64); ok {
				return int64(f(rune(x)))
			}
			if v, g := it.c.oneDom(a[0]); v != nil {
				return it.c.mkTab(v, func(i int) int64 { return int64(f(rune(g(i)))) })
			}
			return int64(f(rune(it.c.asInt(a[0]))))
		}
	}
	intrinsics["os.OpenFile"] = intrinsics["os.Open"]
	for _, n := range []string{"Print", "Println", "Printf"} {
		f := func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			it.c.logCount++
			return nil
		}
		intrinsics["log."+n] = f
		intrinsics["(*log.Logger)."+n] = f
	}
	intrinsics["log.Default"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		v := zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		return &v
	}
	intrinsics["(*log.Logger).Output"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		it.c.logCount++
		return iface{}
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive"} {
		intrinsics[n] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return nil }
	}
}

func observable(v value) bool {
	switch v.(type) {
	case int64, float64, string, bool, *Num, *SymStr, *Tab, *SymBool:
		return true
	}
	return false
}

// interpret runs the library's own source.
func (it *Interp) interpret(fn *ssa.Function, args []value, caller *frame) value {
	key := fn
	if c, ok := it.t.codes.Load(srcKey{key}); ok {
		return it.runCode(c.(*code), args, caller)
	}
	cd := it.t.compileSource(fn)
	it.t.codes.Store(srcKey{key}, cd)
	return it.runCode(cd, args, caller)
}

type srcKey struct{ fn *ssa.Function }

func (it *Interp) num(v value) value {
	if t, ok := v.(*Tab); ok {
		return it.c.tabNum(t)
	}
	return v
}

func (c *Ctx) assumeB(v value) {
	switch b := v.(type) {
	case bool:
		if !b {
			c.flushAsserts()
			abort("infeasible", "assumption")
		}
	case *SymBool:
		c.flushAsserts()
		c.emit(pushCmd)
		c.assume(b.t, false)
		if c.singleDom(b.t) == nil {
			if c.npos >= len(c.prefix) && c.checkSat(nil, c.w.run.forkTimeout) == SatNo {
				abort("infeasible", "assumption")
			}
		}
	}
}

func (c *Ctx) near(a, b value, tol float64) value {
	fa, oka := a.(float64)
	fb, okb := b.(float64)
	if oka && okb {
		return math.Abs(fa-fb) <= tol || fa == fb
	}
	if isSpecial(a) || isSpecial(b) {
		return false
	}
	x, y := c.asNum(a), c.asNum(b)
	d := x.p.add(y.p, -1)
	// the native subtraction rounds monotonically: it can only turn a difference above
	// tol into tol, which te allows for
	e := x.e + y.e
	te := e + 4*u64*tol
	lo, hi := c.polyInterval(d)
	if l, h := widen(x.lo-y.hi, x.hi-y.lo); true {
		lo, hi = math.Max(lo, l), math.Min(hi, h)
	}
	if lo >= -(tol-e) && hi <= tol-e {
		if len(c.simpl) < 60 {
			c.simpl = append(c.simpl, simplified{x.p, y.p, tol - e})
		}
		return true
	}
	neg := d.scale(big.NewRat(-1, 1))
	tp, tm := polyFloat(tol+te), polyFloat(tol-e)
	t := mkAnd(c.atom(d.add(tp, -1), LE, lo-tol-te, hi-tol-te), c.atom(neg.add(tp, -1), LE, -hi-tol-te, -lo-tol-te))
	// violated: d > tol-e or -d > tol-e
	f := mkOr(c.atom(tm.add(d, -1), LT, tol-e-hi, tol-e-lo), c.atom(tm.add(neg, -1), LT, tol-e+lo, tol-e+hi))
	if tc, ok := t.(fConst); ok && !bool(tc) {
		return false
	}
	if fc, ok := f.(fConst); ok && !bool(fc) {
		return true
	}
	return &SymBool{t, f}
}

// simplified is an assertion the simplifier decided; the solver confirms it.
type simplified struct {
	a, b *Poly
	tol  float64
}

func (it *Interp) strEqB(a, b value) value {
	if strLen(a) != strLen(b) {
		return false
	}
	var r value = true
	for i := 0; i < strLen(a); i++ {
		r = it.c.andB(r, it.c.intCmp("==", strByte(a, i), strByte(b, i), intKind{8, false}))
	}
	return r
}

// try calls f and reports whether it panicked.
func (it *Interp) try(f value) (res value) {
	depth, stack := it.depth, len(it.c.callStack)
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			it.depth = depth
			it.c.callStack = it.c.callStack[:stack]
			it.c.lastPanic = panicText(tp.v)
			res = true
		}
	}()
	it.callValue(f, nil, nil)
	return false
}

func panicText(v value) string {
	switch x := v.(type) {
	case runtimeError:
		return string(x)
	case iface:
		if s, ok := x.v.(string); ok {
			return s
		}
		return fmt.Sprintf("%v", x.t)
	}
	return fmt.Sprintf("%T", v)
}

// findDoc looks for the harness document behind a reader.
func (it *Interp) findDoc(v value, depth int) value {
	if depth > 5 {
		return nil
	}
	switch x := v.(type) {
	case iface:
		if x.t == nil {
			return nil
		}
		if x.t.String() == "*"+ndPath+".Doc" {
			return x.v
		}
		if p, ok := x.v.(*value); ok && p != nil {
			if d, ok := it.side[fmt.Sprintf("open:%p", p)]; ok {
				return d
			}
			return it.findDoc(*p, depth+1)
		}
		return it.findDoc(x.v, depth+1)
	case structure:
		for _, e := range x {
			if r := it.findDoc(e, depth+1); r != nil {
				return r
			}
		}
	case []value:
		if len(x) > 0 && len(x) < 16 {
			for _, e := range x {
				if r := it.findDoc(e, depth+1); r != nil {
					return r
				}
			}
		}
	case *value:
		if x == nil {
			return nil
		}
		if d, ok := it.side[fmt.Sprintf("open:%p", x)]; ok {
			return d
		}
		return it.findDoc(*x, depth+1)
	}
	return nil
}

func decToken(name string) intrinsic {
	return func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		r, ok := it.side[fmt.Sprintf("dec:%p", a[0])]
		if !ok {
			unsupported("decoder not made by NewDecoder")
		}
		d := it.findDoc(r, 0)
		if d == nil {
			unsupported("decoder over a reader that is not the harness document")
		}
		m := it.t.nd.Func(name)
		args := []value{d}
		// the settings of the decoder
		pt := fn.Signature.Recv().Type().(*types.Pointer)
		st := (*a[0].(*value)).(structure)
		for _, f := range []string{"Strict", "CharsetReader"} {
			args = append(args, st[fieldIndex(pt.Elem(), f)])
		}
		return it.call(m, args, nil, fr)
	}
}

func fieldIndex(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (it *Interp) indexByte(b []value, x value) value {
	for i := range b {
		if it.c.truth(it.c.intCmp("==", b[i], x, intKind{8, false})) {
			return int64(i)
		}
	}
	return int64(-1)
}

func (it *Interp) indexStr(s, sub value) int {
	x, ok1 := s.(string)
	y, ok2 := sub.(string)
	if ok1 && ok2 {
		return strings.Index(x, y)
	}
	n, m := strLen(s), strLen(sub)
	for i := 0; i+m <= n; i++ {
		if it.c.strEq(it.c.strSlice(s, i, i+m), sub) {
			return i
		}
	}
	return -1
}

func caseMap(upper bool) intrinsic {
	return func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		conv := func(b int64) int64 {
			if upper && b >= 'a' && b <= 'z' {
				return b - 32
			}
			if !upper && b >= 'A' && b <= 'Z' {
				return b + 32
			}
			return b
		}
		if s, ok := a[0].(string); ok {
			if upper {
				return strings.ToUpper(s)
			}
			return strings.ToLower(s)
		}
		bs := strBytes(a[0])
		out := make([]value, len(bs))
		for i, b := range bs {
			if x, ok := b.(int64); ok {
				if x >= 0x80 {
					unsupported("case mapping of mixed symbolic non-ASCII text")
				}
				out[i] = conv(x)
			} else if v, f := it.c.oneDom(b); v != nil {
				out[i] = it.c.mkTab(v, func(j int) int64 { return conv(f(j)) })
			} else {
				out[i] = conv(it.c.asInt(b))
			}
		}
		return it.c.mkStr(out)
	}
}

// method is the method of t with that exported name, or nil.
func (it *Interp) methodOf(t types.Type, name string) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return it.t.prog.MethodValue(sel)
}

// sprint joins operands as fmt.Sprint does (a space between two operands that are not strings) or as fmt.Sprintln.
func (it *Interp) sprint(args []value, line bool) value {
	var r value = ""
	isStr := func(i int) bool {
		t := args[i].(iface).t
		if t == nil {
			return false
		}
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
	for i, x := range args {
		if i > 0 && (line || !isStr(i) && !isStr(i-1)) {
			r = it.c.strConcat(r, " ")
		}
		r = it.c.strConcat(r, it.verb("%v", 'v', x.(iface)))
	}
	if line {
		r = it.c.strConcat(r, "\n")
	}
	return r
}

func (it *Interp) errorsAs(err, target iface) value {
	pt, ok := target.t.(*types.Pointer)
	if !ok {
		unsupported("errors.As")
	}
	for err.t != nil {
		cell := target.v.(*value)
		if i, isI := pt.Elem().Underlying().(*types.Interface); isI && types.Implements(err.t, i) {
			*cell = err
			return true
		} else if !isI && types.Identical(err.t, pt.Elem()) {
			*cell = err.v
			return true
		}
		f := it.methodOf(err.t, "Unwrap")
		if f == nil {
			return false
		}
		r, ok := it.call(f, []value{err.v}, nil, nil).(iface)
		if !ok {
			return false
		}
		err = r
	}
	return false
}

// sortSlice is a stable insertion sort over the backing array, with the caller's less.
func sortSlice(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
	xs, ok := a[0].(iface).v.([]value)
	if !ok {
		unsupported("sort.Slice of %T", a[0].(iface).v)
	}
	for i := 1; i < len(xs); i++ {
		for j := i; j > 0; j-- {
			if !it.c.truth(it.callValue(a[1], []value{int64(j), int64(j - 1)}, fr)) {
				break
			}
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
	return nil
}

func (it *Interp) errorsIs(err, target iface) value {
	for err.t != nil {
		if types.Comparable(err.t) && it.c.truth(it.c.equals(err, target)) {
			return true
		}
		f := it.methodOf(err.t, "Unwrap")
		if f == nil {
			return false
		}
		r, ok := it.call(f, []value{err.v}, nil, nil).(iface)
		if !ok {
			return false
		}
		err = r
	}
	return target.t == nil
}

func (it *Interp) writeTo(w iface, s value) value {
	if w.t == nil {
		nilDeref()
	}
	f := it.methodOf(w.t, "WriteString")
	if f != nil {
		return it.call(f, []value{w.v, s}, nil, nil)
	}
	f = it.methodOf(w.t, "Write")
	if f == nil {
		unsupported("write to %s", w.t)
	}
	return it.call(f, []value{w.v, append([]value{}, strBytes(s)...)}, nil, nil)
}

// sprintf formats; symbolic arguments become placeholders or symbolic text.
func (it *Interp) sprintf(format value, args []value) (value, *value) {
	f, ok := format.(string)
	if !ok {
		return "<symbolic format>", nil
	}
	var out value = ""
	var wrapped *value
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = it.c.strConcat(out, f[i:])
			break
		}
		out = it.c.strConcat(out, f[i:i+j])
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("0123456789.+-# ", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			out = it.c.strConcat(out, "%!(NOVERB)")
			break
		}
		spec := f[i : k+1]
		verb := f[k]
		i = k + 1
		if verb == '%' {
			out = it.c.strConcat(out, "%")
			continue
		}
		if ai >= len(args) {
			out = it.c.strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[ai].(iface)
		ai++
		if verb == 'w' {
			var w value = a
			wrapped = &w
			spec, verb = spec[:len(spec)-1]+"v", 'v'
		}
		out = it.c.strConcat(out, it.verb(spec, verb, a))
	}
	return out, wrapped
}

func (it *Interp) verb(spec string, verb byte, a iface) value {
	if a.t == nil {
		return fmt.Sprintf(spec, nil)
	}
	if verb == 's' || verb == 'v' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			sel := it.t.prog.MethodSets.MethodSet(a.t).Lookup(nil, m)
			if sel != nil {
				sig := sel.Type().(*types.Signature)
				if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
					r := it.call(it.t.prog.MethodValue(sel), []value{a.v}, nil, nil)
					if s, ok := r.(string); ok {
						return fmt.Sprintf(spec, s)
					}
					return r
				}
			}
		}
	}
	k := kindOf(a.t)
	switch v := a.v.(type) {
	case string:
		return fmt.Sprintf(spec, v)
	case bool:
		return fmt.Sprintf(spec, v)
	case int64:
		if !k.ik.signed {
			return fmt.Sprintf(spec, uint64(v))
		}
		return fmt.Sprintf(spec, v)
	case float64:
		if k.bits == 32 {
			return fmt.Sprintf(spec, float32(v))
		}
		return fmt.Sprintf(spec, v)
	case *SymStr:
		return v
	case *Tab:
		if verb == 'c' {
			return it.c.mkStr([]value{v})
		}
		return fmt.Sprintf(spec, it.c.asInt(v))
	case *Num:
		if k.isInt {
			if verb == 'd' || verb == 'v' {
				return it.c.fmtInt(v)
			}
			if verb == 'c' {
				return it.c.mkStr([]value{v})
			}
			return fmt.Sprintf(spec, it.c.asInt(v))
		}
		prec := -1
		if d := strings.IndexByte(spec, '.'); d >= 0 {
			prec, _ = strconv.Atoi(spec[d+1 : len(spec)-1])
		} else if verb == 'f' {
			prec = 6
		}
		if verb == 'v' {
			verb = 'g'
		}
		return it.c.decimalText(v, verb, prec, k.bits)
	}
	return "<" + a.t.String() + ">"
}

// ---- number texts ----

const (
	styleShape = iota // a plain decimal, whatever the sign (number shapes are the subject of C03)
	styleSign         // forks on the sign: a minus sign when negative
	styleExp          // with an exponent
	styleExpUpper
)

func (c *Ctx) placeholder(neg bool) string {
	c.textSeq++
	s := fmt.Sprintf("%d.%05d3", 3+c.textSeq%6, 20011+c.textSeq*37)
	if neg {
		s = "-" + s
	}
	return s
}

func (c *Ctx) textFloat(n *Num) value {
	if n.e == 0 && n.p.isConst() {
		f, ok := n.p.constVal().Float64()
		if ok {
			return f
		}
	}
	return n
}

// nativeFmt is how the native harness writes a number; see nd.Fmt.
func nativeFmt(x float64, style int) string {
	switch style {
	case styleExp:
		return strconv.FormatFloat(x, 'e', -1, 64)
	case styleExpUpper:
		return strconv.FormatFloat(x, 'E', -1, 64)
	}
	s := strconv.FormatFloat(x, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

func (c *Ctx) fmtNum(v value, style int) value {
	if f, ok := v.(float64); ok {
		return nativeFmt(f, style)
	}
	n := v.(*Num)
	neg := false
	if style == styleSign {
		neg = c.truth(c.cmpV("<", n, 0.0))
	}
	s := c.placeholder(neg)
	switch style {
	case styleExp:
		s += "e+01"
	case styleExpUpper:
		s += "E+01"
	}
	c.texts[s] = n
	return s
}

func (c *Ctx) fmtInt(v value) value {
	switch x := v.(type) {
	case int64:
		return strconv.FormatInt(x, 10)
	case *Tab:
		return c.fmtInt(c.tabNum(x))
	case *Num:
		neg := c.truth(c.cmpV("<", x, int64(0)))
		c.textSeq++
		s := strconv.Itoa(7300019 + c.textSeq*101)
		if neg {
			s = "-" + s
		}
		c.texts[s] = x
		return s
	}
	panic("fmtInt")
}

// decimalText is the text of a symbolic float in %f-like formats: a placeholder whose
// value is the number rounded to the precision.
func (c *Ctx) decimalText(n *Num, verb byte, prec, bits int) value {
	if verb != 'f' && verb != 'g' && verb != 'F' {
		unsupported("format verb %c of a symbolic number", verb)
	}
	neg := c.truth(c.cmpV("<", n, 0.0))
	s := c.placeholder(neg)
	if verb == 'g' && prec >= 0 {
		unsupported("%%.%dg of a symbolic number", prec)
	}
	if prec < 0 {
		e := n.e
		if bits == 32 {
			e += u32 * n.mag()
		}
		c.texts[s] = &Num{p: n.p, e: e, lo: n.lo, hi: n.hi}
		return s
	}
	if prec == 0 {
		s = strings.Replace(s, ".", "0", 1)
	}
	// value k/10^prec with |k/10^prec - x| <= 1/2 10^-prec
	pow := math.Pow(10, float64(prec))
	k := c.newVar("dec", true, math.Floor(n.lo*pow)-1, math.Ceil(n.hi*pow)+1)
	k.coupled = true
	np := n.p
	k.eval = func(ev func(*Poly) float64) float64 { return math.RoundToEven(ev(np) * pow) }
	inv := new(big.Rat).SetFrac64(1, int64(pow))
	p := polyVar(k.id).scale(inv)
	half := polyConst(new(big.Rat).Add(new(big.Rat).Mul(inv, big.NewRat(1, 2)), floatRat(n.e)))
	d := p.add(n.p, -1)
	c.assume(&fAtom{d.add(half, -1), LE}, true)
	c.assume(&fAtom{d.scale(big.NewRat(-1, 1)).add(half, -1), LE}, true)
	c.assertBounds(k)
	r := c.mkFloat(p, n.lo-1/pow, n.hi+1/pow, 0, 64, true)
	c.texts[s] = c.asNum(r)
	return s
}

func (c *Ctx) choice(name string, n int64) value {
	name = c.uniq(name)
	if n <= 1 {
		c.fixed[name] = 0
		return int64(0)
	}
	r := c.decide(func() []int64 {
		alts := make([]int64, n)
		for i := range alts {
			alts[i] = int64(i)
		}
		return alts
	})
	c.fixed[name] = r
	return r
}

// ---- native calls with concrete arguments ----

var natives = map[string]any{
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.TrimSpace": strings.TrimSpace,
	"strings.Fields": strings.Fields, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.Contains": strings.Contains,
	"strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.IndexByte": strings.IndexByte,
	"strings.IndexAny": strings.IndexAny, "strings.IndexRune": strings.IndexRune, "strings.EqualFold": strings.EqualFold,
	"strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.Join": strings.Join, "strings.Title": strings.Title, "strings.Compare": strings.Compare,
	"strconv.ParseUint": nil, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt,
	"strconv.FormatUint":             strconv.FormatUint,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"math.Asin": math.Asin, "math.Acos": math.Acos, "math.Atan": math.Atan, "math.Exp": math.Exp, "math.Log": math.Log,
	"math.Cbrt": math.Cbrt, "math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits,
	"math.Float32bits": math.Float32bits, "math.Float32frombits": math.Float32frombits, "math.Inf": math.Inf, "math.NaN": math.NaN,
	"internal/strconv.float64frombits": math.Float64frombits, "internal/strconv.float64bits": math.Float64bits,
	"internal/strconv.float32frombits": math.Float32frombits, "internal/strconv.float32bits": math.Float32bits,
	"math.RoundToEven": math.RoundToEven, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Exp2": math.Exp2,
}

func (it *Interp) tryNative(fn *ssa.Function, args []value) (value, bool) {
	f, ok := natives[fn.String()]
	if !ok || f == nil {
		return nil, false
	}
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	if rt.IsVariadic() || rt.NumIn() != len(args) {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		pt := rt.In(i)
		switch x := a.(type) {
		case string:
			if pt.Kind() != reflect.String {
				return nil, false
			}
			in[i] = reflect.ValueOf(x)
		case bool:
			in[i] = reflect.ValueOf(x)
		case int64:
			in[i] = reflect.ValueOf(x).Convert(pt)
		case float64:
			in[i] = reflect.ValueOf(x).Convert(pt)
		case []value:
			if pt != reflect.TypeOf([]string(nil)) {
				return nil, false
			}
			ss := make([]string, len(x))
			for j, e := range x {
				s, ok := e.(string)
				if !ok {
					return nil, false
				}
				ss[j] = s
			}
			in[i] = reflect.ValueOf(ss)
		default:
			return nil, false
		}
	}
	out := rv.Call(in)
	res := make(tuple, len(out))
	for i, o := range out {
		switch o.Kind() {
		case reflect.String:
			res[i] = o.String()
		case reflect.Bool:
			res[i] = o.Bool()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			res[i] = o.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			res[i] = int64(o.Uint())
		case reflect.Float64, reflect.Float32:
			res[i] = o.Float()
		case reflect.Slice:
			if o.IsNil() {
				res[i] = []value(nil)
				break
			}
			sl := make([]value, o.Len(), o.Cap())
			for j := range sl {
				sl[j] = o.Index(j).String()
			}
			full := sl[:cap(sl)]
			for j := len(sl); j < len(full); j++ {
				full[j] = ""
			}
			res[i] = sl
		case reflect.Interface:
			if o.IsNil() {
				res[i] = iface{}
			} else {
				res[i] = it.mkError(o.Interface().(error).Error())
			}
		default:
			return nil, false
		}
	}
	if len(res) == 1 {
		return res[0], true
	}
	return res, true
}

var _ = errors.New
