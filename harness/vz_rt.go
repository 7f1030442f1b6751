package gojsonsm

// Run-time support of the verification harnesses.  The symbolic engine replaces
// the vz* primitives below; compiled natively they replay recorded inputs.

import (
	"encoding/base64"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"time"
)

type vzStop struct{ why string }

type vzState struct {
	in     []uint64
	pos    int
	obs    []string
	fails  []string
	assume bool
}

var vzS *vzState

var vzHarnesses = map[string]func(){}
var vzHarnessesS = map[string]func() func(){}

func vzReg(name string, f func()) bool         { vzHarnesses[name] = f; return true }
func vzRegS(name string, f func() func()) bool { vzHarnessesS[name] = f; return true }

func vzNext() uint64 {
	if vzS.pos >= len(vzS.in) {
		panic(vzStop{"inputs exhausted"})
	}
	v := vzS.in[vzS.pos]
	vzS.pos++
	return v
}

func vzU8() uint8   { return uint8(vzNext()) }
func vzU16() uint16 { return uint16(vzNext()) }
func vzU32() uint32 { return uint32(vzNext()) }
func vzU64() uint64 { return vzNext() }
func vzBool() bool  { return vzNext() == 1 }
func vzChoice(n int) int {
	if n <= 1 {
		vzNext()
		return 0
	}
	return int(vzNext())
}
func vzAssume(c bool) {
	if !c {
		vzS.assume = true
		panic(vzStop{"assume"})
	}
}
func vzAssert(c bool, msg string) {
	if !c {
		vzS.fails = append(vzS.fails, msg)
		panic(vzStop{"assert"})
	}
}

// vzAssertKF is vzAssert for a property with the recorded finding kf: where
// kcond holds, a failure is that finding.
func vzAssertKF(c bool, msg, kf string, kcond bool) { vzAssert(c, msg) }
func vzCover(label string)                          {}
func vzConc(n int) int                              { return n }
func vzConcU8(n uint8) uint8                        { return n }
func vzAnd(a, b bool) bool                          { return a && b }
func vzOr(a, b bool) bool                           { return a || b }
func vzIte(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func vzMapOrder(on bool)               {}
func vzWatch(roots ...interface{})     {}
func vzUnwatch() int                   { return 0 }
func vzSite() string                   { return "" }
func vzPanicText(v interface{}) string { return fmt.Sprint(v) }
func vzSymbolic() bool                 { return false }

var vzThoroughFlag bool

func vzThorough() bool { return vzThoroughFlag }

func vzObserve(label string, vals ...interface{}) {
	s := label
	for _, v := range vals {
		switch v := v.(type) {
		case bool:
			s += fmt.Sprintf(" %v", v)
		case string:
			s += fmt.Sprintf(" %q", v)
		case []byte:
			s += fmt.Sprintf(" %q", string(v))
		case nil:
			s += ` "nil"`
		case float64:
			s += fmt.Sprintf(" %d", math.Float64bits(v))
		default:
			rv := reflect.ValueOf(v)
			switch rv.Kind() {
			case reflect.Int8:
				s += fmt.Sprintf(" %d", uint8(rv.Int()))
			case reflect.Int16:
				s += fmt.Sprintf(" %d", uint16(rv.Int()))
			case reflect.Int32:
				s += fmt.Sprintf(" %d", uint32(rv.Int()))
			case reflect.Int, reflect.Int64:
				s += fmt.Sprintf(" %d", uint64(rv.Int()))
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				s += fmt.Sprintf(" %d", rv.Uint())
			case reflect.Bool:
				s += fmt.Sprintf(" %v", rv.Bool())
			case reflect.String:
				s += fmt.Sprintf(" %q", rv.String())
			default:
				s += fmt.Sprintf(" ?%T", v)
			}
		}
	}
	vzS.obs = append(vzS.obs, s)
}

// vzBytes makes n unconstrained bytes.
func vzBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vzU8()
	}
	return b
}

// vzTextInt, vzTextHalf and vzTextStr put a symbolic value into a text to be
// parsed: a whole number that is not negative, a number and a half, characters
// of a string or name.
func vzTextInt(v int) string    { return strconv.Itoa(v) }
func vzTextHalf(v int) string   { return strconv.Itoa(v) + ".5" }
func vzTextStr(s string) string { return s }

// vzFilterParse runs the filter text parser; the engine runs it natively.
func vzFilterParse(text string) (Expression, string) {
	v, err := vzParseText("filter", text)
	if err != "" {
		return nil, err
	}
	return v, ""
}

// vzSimpleParse runs the simple text parser.
func vzSimpleParse(text string) (Expression, string) {
	v, err := vzParseText("simple", text)
	if err != "" {
		return nil, err
	}
	return v, ""
}

func vzParseText(kind, text string) (e Expression, errs string) {
	defer func() {
		if r := recover(); r != nil {
			e, errs = nil, fmt.Sprintf("panic: %v", r)
		}
	}()
	var err error
	switch kind {
	case "filter":
		_, fe, perr := NewFilterExpressionParser(text)
		if perr != nil {
			return nil, "error: " + perr.Error()
		}
		e, err = fe.OutputExpression()
	case "simple":
		e, err = ParseSimpleExpression(text)
	}
	if err != nil {
		return nil, "error: " + err.Error()
	}
	return e, ""
}

// vzDump serialises a value for the engine.
func vzDump(v reflect.Value) interface{} {
	if v.Kind() == reflect.Struct && v.Type() == reflect.TypeOf(time.Time{}) && v.CanInterface() {
		return v.Interface().(time.Time).Format(time.RFC3339Nano)
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return "1"
		}
		return "0"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatUint(uint64(v.Int()), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float64, reflect.Float32:
		return strconv.FormatUint(math.Float64bits(v.Float()), 10)
	case reflect.String:
		return base64.StdEncoding.EncodeToString([]byte(v.String()))
	case reflect.Struct:
		r := []interface{}{}
		for i := 0; i < v.NumField(); i++ {
			r = append(r, vzDump(v.Field(i)))
		}
		return r
	case reflect.Array, reflect.Slice:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return nil
		}
		r := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			r = append(r, vzDump(v.Index(i)))
		}
		return r
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		if v.Type() == reflect.TypeOf((*regexp.Regexp)(nil)) {
			return fmt.Sprint(reflect.NewAt(v.Type().Elem(), v.UnsafePointer()).Interface())
		}
		return []interface{}{vzDump(v.Elem())}
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		r := []interface{}{}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for _, k := range ks {
			r = append(r, []interface{}{vzDump(k), vzDump(v.MapIndex(k))})
		}
		return r
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return map[string]interface{}{"t": v.Elem().Type().String(), "v": vzDump(v.Elem())}
	}
	panic("vzDump: " + v.Type().String())
}
