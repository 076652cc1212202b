// Package nd is the interface between a harness and the checker: nondeterministic
// inputs, assumptions and assertions. The symbolic engine replaces every function in
// this file by its symbolic meaning; compiled natively they read the inputs from a
// recorded assignment, which is how counterexamples are replayed on the real code.
package nd

import (
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

type Obs struct {
	L string `json:"l"`
	K string `json:"k"`
	V string `json:"v"`
}

type Reply struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []Obs    `json:"obs"`
	Docs   []string `json:"docs"`
}

type stopRun struct{}

var (
	inputs   map[string]float64
	used     map[string]int
	thorough bool
	rep      *Reply
	logs     int64
	tmpDir   string
	files    int
)

type logCounter struct{}

func (logCounter) Write(p []byte) (int, error) { logs++; return len(p), nil }

// Run executes f natively on the given inputs.
func Run(f func(), in map[string]float64, th bool) (r *Reply) {
	inputs, used, thorough, logs, files = in, map[string]int{}, th, 0, 0
	rep = &Reply{Status: "ok"}
	r = rep
	log.SetOutput(logCounter{})
	defer func() {
		if tmpDir != "" {
			os.RemoveAll(tmpDir)
			tmpDir = ""
		}
		if e := recover(); e != nil {
			if _, ok := e.(stopRun); !ok {
				r.Status, r.Msg = "panic", fmt.Sprint(e)
			}
		}
	}()
	f()
	return r
}

func uniq(name string) string {
	n := used[name]
	used[name]++
	if n == 0 {
		return name
	}
	return name + "#" + strconv.Itoa(n)
}

// Float is any float64 in [lo,hi].
func Float(name string, lo, hi float64) float64 {
	if v, ok := inputs[uniq(name)]; ok {
		return math.Max(lo, math.Min(hi, v))
	}
	return lo
}

// Int is any integer in [lo,hi].
func Int(name string, lo, hi int64) int64 {
	if v, ok := inputs[uniq(name)]; ok {
		return int64(math.Max(float64(lo), math.Min(float64(hi), v)))
	}
	return lo
}

// Choice is any integer in [0,n), each explored as a path of its own.
func Choice(name string, n int) int {
	if v, ok := inputs[uniq(name)]; ok && int(v) >= 0 && int(v) < n {
		return int(v)
	}
	return 0
}

// Byte is any byte of the alphabet.
func Byte(name, alphabet string) byte {
	if v, ok := inputs[uniq(name)]; ok && strings.IndexByte(alphabet, byte(v)) >= 0 {
		return byte(v)
	}
	return alphabet[0]
}

// Text is any text of n bytes over the alphabet.
func Text(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name+"["+strconv.Itoa(i)+"]", alphabet)
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		rep.Status = "assume"
		panic(stopRun{})
	}
}

// Assert is the property.
func Assert(b bool, msg string) {
	if !b {
		rep.Status, rep.Msg = "fail", msg
		panic(stopRun{})
	}
}

// Together runs f and g at the same time. The race detector's build does, an ordinary one
// runs one after the other.
func Together(f, g func()) {
	if !Raced {
		f()
		g()
		return
	}
	start := make(chan bool)
	ends := make(chan any, 2)
	for _, h := range []func(){f, g} {
		go func(h func()) {
			defer func() { ends <- recover() }()
			<-start
			h()
		}(h)
	}
	close(start)
	e1, e2 := <-ends, <-ends
	if e1 == nil {
		e1 = e2
	}
	if e1 != nil {
		panic(e1)
	}
}

// Near is |a-b| <= tol.
func Near(a, b, tol float64) bool { return math.Abs(a-b) <= tol || a == b }

// NearI is |a-b| <= tol.
func NearI(a, b, tol int64) bool { return a-b <= tol && b-a <= tol }

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func EqS(a, b string) bool { return a == b }

func EqI(a, b int64) bool { return a == b }

func SelF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// Fmt writes a number as decimal text: style 0 plain, 1 plain (the sign is explored as a
// path of its own), 2 with an e exponent, 3 with an E exponent.
func Fmt(x float64, style int) string {
	switch style {
	case 2:
		return strconv.FormatFloat(x, 'e', -1, 64)
	case 3:
		return strconv.FormatFloat(x, 'E', -1, 64)
	}
	s := strconv.FormatFloat(x, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

// FmtInt writes an integer.
func FmtInt(x int64) string { return strconv.FormatInt(x, 10) }

// Observe records a value for the comparison of the symbolic and the native run.
func Observe(label string, v any) {
	rv := reflect.ValueOf(v)
	o := Obs{L: label}
	switch rv.Kind() {
	case reflect.Float64, reflect.Float32:
		o.K, o.V = "f", strconv.FormatFloat(rv.Float(), 'g', -1, 64)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		o.K, o.V = "i", strconv.FormatInt(rv.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		o.K, o.V = "i", strconv.FormatUint(rv.Uint(), 10)
	case reflect.String:
		o.K, o.V = "s", rv.String()
	case reflect.Bool:
		o.K, o.V = "b", strconv.FormatBool(rv.Bool())
	default:
		return
	}
	rep.Obs = append(rep.Obs, o)
}

// Thorough tells whether the thorough check is running.
func Thorough() bool { return thorough }

// Symbolic tells whether the symbolic engine is running.
func Symbolic() bool { return false }

// LogCount is the number of messages logged so far.
func LogCount() int64 { return logs }

// Cover notes that a path got here.
func Cover(label string) {}

// Bound states a bound of the harness for the report.
func Bound(text string) {}

// Try runs f and tells whether it panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopRun); ok {
				panic(e)
			}
			panicked = true
			rep.Msg = fmt.Sprint(e)
		}
	}()
	f()
	return false
}

// PutFile stores the document in a scratch file and returns its name.
func PutFile(d *Doc) string {
	if tmpDir == "" {
		var err error
		if tmpDir, err = os.MkdirTemp("", "nd-files-"); err != nil {
			panic(err)
		}
	}
	files++
	name := filepath.Join(tmpDir, "f"+strconv.Itoa(files)+".svg")
	b, err := io.ReadAll(d)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, b, 0o600); err != nil {
		panic(err)
	}
	return name
}

// OpenCount is the number of PutFile files currently open.
func OpenCount() int64 {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	n := int64(0)
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && tmpDir != "" && strings.HasPrefix(l, tmpDir) {
			n++
		}
	}
	return n
}
