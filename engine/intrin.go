package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

const repoPkg = "github.com/couchbaselabs/gojsonsm"

var intrinsics = map[string]intrinsic{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func term(v Value) *Term { return v.(*Term) }

func allConcrete(args []Value) bool {
	for _, a := range args {
		switch a := a.(type) {
		case *Term:
			if !a.isC() {
				return false
			}
		case Str:
			if a.sym != nil {
				return false
			}
		case Slice:
			for _, x := range a {
				if !allConcrete([]Value{x}) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func goStr(v Value) string {
	return v.(Str).s
}

func (in *Interp) strSlice(ss []string) Value {
	if ss == nil {
		return Slice(nil)
	}
	r := make(Slice, len(ss))
	for i, s := range ss {
		r[i] = Str{s: s}
	}
	return r
}

func (in *Interp) i64(i int) *Term { return in.tt.C(64, uint64(int64(i))) }

// sAll gives the concrete strings of args or false.
func conc(args []Value) ([]string, bool) {
	var r []string
	for _, a := range args {
		s, ok := a.(Str)
		if !ok || s.sym != nil {
			return nil, false
		}
		r = append(r, s.s)
	}
	return r, true
}

// viaBody runs the interpreted body of fn, bypassing its intrinsic.
func (in *Interp) viaBody(fr *Frame, fn *ssa.Function, args []Value) Value {
	fi := in.finfo(fn)
	if len(fi.blocks) == 0 {
		panic(unsupported{"external " + fi.name})
	}
	in.funcs[fn]++
	d := 0
	if fr != nil {
		d = fr.depth + 1
	}
	nf := &Frame{in: in, caller: fr, fi: fi, regs: make([]Value, fi.nregs), depth: d}
	copy(nf.regs, args)
	in.runFrame(nf)
	return nf.result
}

// regStr1 registers a native shortcut for fully concrete string arguments.
func regS(name string, n int, f func(in *Interp, s []string) Value) {
	reg(name, func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		if s, ok := conc(args); ok && len(s) == n {
			return f(in, s)
		}
		return in.viaBody(fr, fn, args)
	})
}

func nondet(w uint8, kind string) intrinsic {
	return func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		v := in.newVar(w)
		in.p.inputs = append(in.p.inputs, Input{Kind: kind, W: w, Term: v})
		return v
	}
}

func (in *Interp) ufApp(name string, args ...*Term) *Term {
	k := ufKey{f: name}
	for i, a := range args {
		a = in.tt.intern(a)
		switch i {
		case 0:
			k.a = a
		case 1:
			k.b = a
		case 2:
			k.c = a
		}
	}
	if t, ok := in.p.uf[k]; ok {
		return t
	}
	t := in.newVar(64)
	in.p.uf[k] = t
	in.p.approx = true
	return t
}

func math1(name string, f func(float64) float64) {
	reg("math."+name, func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		x := term(args[0])
		if x.isC() {
			return in.tt.C(64, b64(f(f64(x.c))))
		}
		if in.noFork > 0 {
			panic(bail{})
		}
		return in.ufApp(name, x)
	})
}
func math2(name string, f func(a, b float64) float64) {
	reg("math."+name, func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		x, y := term(args[0]), term(args[1])
		if x.isC() && y.isC() {
			return in.tt.C(64, b64(f(f64(x.c), f64(y.c))))
		}
		if in.noFork > 0 {
			panic(bail{})
		}
		return in.ufApp(name, x, y)
	})
}
func mathRound(name string, mode uint64) {
	h := func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.tt.op1(OFRound, 64, mode, term(args[0]))
	}
	reg("math."+name, h)
	reg("math."+strings.ToLower(name), h)
}

func ident(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value { return args[0] }
func noop(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(rs.At(0).Type())
	}
	return in.zero(rs)
}

// mkErr builds an *errors.errorString.
func (in *Interp) mkErr(s Str) Value {
	p := new(Value)
	*p = Struct{s}
	return Iface{t: in.sh.errStrType, v: p}
}

func (in *Interp) argSlice(v Value) []Value {
	s, _ := v.(Slice)
	return s
}

func init() {
	p := repoPkg + "."
	reg(p+"vzU8", nondet(8, "u8"))
	reg(p+"vzU16", nondet(16, "u16"))
	reg(p+"vzU32", nondet(32, "u32"))
	reg(p+"vzU64", nondet(64, "u64"))
	reg(p+"vzBool", nondet(0, "bool"))
	reg(p+"vzChoice", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		n := in.concInt(args[0])
		i := in.choose(n)
		in.p.inputs = append(in.p.inputs, Input{Kind: "choice", W: 64, Value: uint64(i)})
		return in.i64(i)
	})
	reg(p+"vzAssume", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		in.assume(term(args[0]))
		return nil
	})
	reg(p+"vzAssert", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		in.assert(term(args[0]), in.fmtStr(args[1].(Str)), "", nil)
		return nil
	})
	reg(p+"vzAssertKF", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		in.assert(term(args[0]), in.fmtStr(args[1].(Str)), goStr(args[2]), term(args[3]))
		return nil
	})
	reg(p+"vzCover", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		in.p.covers[goStr(args[0])] = true
		return nil
	})
	reg(p+"vzConc", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.i64(in.concInt(args[0]))
	})
	reg(p+"vzConcU8", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.tt.C(8, in.concretize(term(args[0])))
	})
	// vzSame: like ==, merged without forking (bool arguments combined)
	reg(p+"vzAnd", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.tt.And(term(args[0]), term(args[1]))
	})
	reg(p+"vzOr", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.tt.Or(term(args[0]), term(args[1]))
	})
	reg(p+"vzIte", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.tt.Ite(term(args[0]), term(args[1]), term(args[2]))
	})
	reg(p+"vzMapOrder", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		in.mapPerm = term(args[0]).c == 1
		return nil
	})
	reg(p+"vzSymbolic", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value { return in.tt.tr })
	reg(p+"vzThorough", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value { return in.tt.Bool(in.sh.thorough) })
	reg(p+"vzObserve", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		o := Obs{Label: goStr(args[0])}
		for _, a := range in.argSlice(args[1]) {
			i := a.(Iface)
			switch v := i.v.(type) {
			case *Term, Str:
				o.Vals = append(o.Vals, v)
			case Slice:
				o.Vals = append(o.Vals, in.sliceToStr(v))
			default:
				if i.t == nil {
					o.Vals = append(o.Vals, Str{s: "nil"})
				} else {
					panic(unsupported{fmt.Sprintf("observe %T", v)})
				}
			}
		}
		in.p.obs = append(in.p.obs, o)
		return nil
	})
	reg(p+"vzWatch", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		// vzWatch(shared ...interface{}): from now on, report stores to any
		// cell reachable from the arguments or from package-level variables
		in.startWatch(in.argSlice(args[0]))
		return nil
	})
	reg(p+"vzUnwatch", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		w := in.watch
		in.watch = nil
		if w == nil {
			return in.i64(0)
		}
		return in.i64(w.hits)
	})
	reg(p+"vzSite", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return Str{s: in.watchSite}
	})
	reg(p+"vzPanicText", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.sprint(fr, []Value{args[0]})
	})
	reg(p+"vzFilterParse", nativeParse("filter"))
	reg(p+"vzSimpleParse", nativeParse("simple"))
	reg(p+"vzTextInt", placeText)
	reg(p+"vzTextHalf", placeText)
	reg(p+"vzTextStr", placeText)
	reg(p+"NewFilterExpressionParser", filterTree)

	// math
	reg("math.Float64bits", ident)
	reg("math.Float64frombits", ident)
	reg("math.Float32bits", ident)
	reg("math.Float32frombits", ident)
	reg("math.Abs", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		x := term(args[0])
		if x.op == OFSub && x.a[0].id > x.a[1].id {
			// |a-b| = |b-a|
			x = in.tt.op2(OFSub, x.w, x.a[1], x.a[0])
		}
		return in.tt.BAnd(x, in.tt.C(64, 1<<63-1))
	})
	reg("math.IsNaN", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.tt.FIsNaN(term(args[0]))
	})
	mathRound("Floor", 3)
	mathRound("Ceil", 2)
	mathRound("Trunc", 4)
	mathRound("Round", 1)
	mathRound("RoundToEven", 0)
	reg("math.Sqrt", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.tt.op1(OFSqrt, 64, 0, term(args[0]))
	})
	intrinsics["math.sqrt"] = intrinsics["math.Sqrt"]
	for n, f := range map[string]func(float64) float64{"Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan, "Exp": math.Exp, "Log": math.Log, "Log10": math.Log10, "Log2": math.Log2, "Exp2": math.Exp2, "Cbrt": math.Cbrt, "Log1p": math.Log1p, "Expm1": math.Expm1} {
		math1(n, f)
	}
	math2("Pow", math.Pow)
	math2("Atan2", math.Atan2)
	math2("Mod", math.Mod)
	math2("Hypot", math.Hypot)
	reg("math.Modf", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		x := term(args[0])
		if x.isC() {
			a, b := math.Modf(f64(x.c))
			return Tuple{in.tt.C(64, b64(a)), in.tt.C(64, b64(b))}
		}
		tr := in.tt.op1(OFRound, 64, 4, x)
		sign := in.tt.BAnd(x, in.tt.C(64, 1<<63))
		frac := in.tt.op2(OFSub, 64, x, tr)
		frac = in.tt.BOr(in.tt.BAnd(frac, in.tt.C(64, 1<<63-1)), sign)
		return Tuple{tr, frac}
	})
	reg("math.FMA", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		panic(unsupported{"math.FMA"})
	})

	// strings / strconv shortcuts on concrete arguments
	b := func(in *Interp, x bool) Value { return in.tt.Bool(x) }
	s1 := func(x string) Value { return Str{s: x} }
	regS("strings.Contains", 2, func(in *Interp, s []string) Value { return b(in, strings.Contains(s[0], s[1])) })
	regS("strings.HasPrefix", 2, func(in *Interp, s []string) Value { return b(in, strings.HasPrefix(s[0], s[1])) })
	regS("strings.HasSuffix", 2, func(in *Interp, s []string) Value { return b(in, strings.HasSuffix(s[0], s[1])) })
	regS("strings.TrimPrefix", 2, func(in *Interp, s []string) Value { return s1(strings.TrimPrefix(s[0], s[1])) })
	regS("strings.TrimSuffix", 2, func(in *Interp, s []string) Value { return s1(strings.TrimSuffix(s[0], s[1])) })
	regS("strings.TrimRight", 2, func(in *Interp, s []string) Value { return s1(strings.TrimRight(s[0], s[1])) })
	regS("strings.TrimLeft", 2, func(in *Interp, s []string) Value { return s1(strings.TrimLeft(s[0], s[1])) })
	regS("strings.Trim", 2, func(in *Interp, s []string) Value { return s1(strings.Trim(s[0], s[1])) })
	regS("strings.TrimSpace", 1, func(in *Interp, s []string) Value { return s1(strings.TrimSpace(s[0])) })
	regS("strings.ToLower", 1, func(in *Interp, s []string) Value { return s1(strings.ToLower(s[0])) })
	regS("strings.ToUpper", 1, func(in *Interp, s []string) Value { return s1(strings.ToUpper(s[0])) })
	regS("strings.Fields", 1, func(in *Interp, s []string) Value { return in.strSlice(strings.Fields(s[0])) })
	regS("strings.Index", 2, func(in *Interp, s []string) Value { return in.i64(strings.Index(s[0], s[1])) })
	regS("strings.LastIndex", 2, func(in *Interp, s []string) Value { return in.i64(strings.LastIndex(s[0], s[1])) })
	regS("strings.IndexAny", 2, func(in *Interp, s []string) Value { return in.i64(strings.IndexAny(s[0], s[1])) })
	regS("strings.ContainsAny", 2, func(in *Interp, s []string) Value { return b(in, strings.ContainsAny(s[0], s[1])) })
	regS("strings.Split", 2, func(in *Interp, s []string) Value { return in.strSlice(strings.Split(s[0], s[1])) })
	regS("strings.Count", 2, func(in *Interp, s []string) Value { return in.i64(strings.Count(s[0], s[1])) })
	regS("strings.EqualFold", 2, func(in *Interp, s []string) Value { return b(in, strings.EqualFold(s[0], s[1])) })
	regS("strings.ReplaceAll", 3, func(in *Interp, s []string) Value { return s1(strings.ReplaceAll(s[0], s[1], s[2])) })
	mixed := func(name string, f func(in *Interp, a []Value) Value) {
		reg(name, func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
			if allConcrete(args) {
				return f(in, args)
			}
			return in.viaBody(fr, fn, args)
		})
	}
	n := func(v Value) int { return int(sx(term(v).w, term(v).c)) }
	mixed("strings.Replace", func(in *Interp, a []Value) Value {
		return s1(strings.Replace(goStr(a[0]), goStr(a[1]), goStr(a[2]), n(a[3])))
	})
	mixed("strings.SplitN", func(in *Interp, a []Value) Value {
		return in.strSlice(strings.SplitN(goStr(a[0]), goStr(a[1]), n(a[2])))
	})
	mixed("strings.SplitAfterN", func(in *Interp, a []Value) Value {
		return in.strSlice(strings.SplitAfterN(goStr(a[0]), goStr(a[1]), n(a[2])))
	})
	mixed("strings.Repeat", func(in *Interp, a []Value) Value { return s1(strings.Repeat(goStr(a[0]), n(a[1]))) })
	mixed("strings.IndexByte", func(in *Interp, a []Value) Value {
		return in.i64(strings.IndexByte(goStr(a[0]), byte(term(a[1]).c)))
	})
	reg("strings.Join", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		var out []*Term
		sep := in.strBytes(args[1].(Str))
		for i, x := range args[0].(Slice) {
			if i > 0 {
				out = append(out, sep...)
			}
			out = append(out, in.strBytes(x.(Str))...)
		}
		return mkStr(out)
	})
	cmp3 := func(in *Interp, a, b Str) Value {
		lt, eq := in.strLess(a, b, false), in.strEq(a, b)
		return in.tt.Ite(lt, in.tt.C(64, ^uint64(0)), in.tt.Ite(eq, in.tt.C(64, 0), in.tt.C(64, 1)))
	}
	reg("strings.Compare", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return cmp3(in, args[0].(Str), args[1].(Str))
	})
	bcmp := func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return cmp3(in, in.sliceToStr(args[0].(Slice)), in.sliceToStr(args[1].(Slice)))
	}
	reg("bytes.Compare", bcmp)
	reg("internal/bytealg.Compare", bcmp)
	reg("internal/bytealg.CompareString", intrinsics["strings.Compare"])
	reg("bytes.Equal", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.strEq(in.sliceToStr(args[0].(Slice)), in.sliceToStr(args[1].(Slice)))
	})
	reg("internal/bytealg.Equal", intrinsics["bytes.Equal"])
	idxByte := func(in *Interp, bs []*Term, c *Term) Value {
		var conds []*Term
		none := in.tt.tr
		for _, x := range bs {
			e := in.tt.Eq(x, c)
			conds = append(conds, in.tt.And(none, e))
			none = in.tt.And(none, in.tt.Not(e))
			if none.isC() && none.c == 0 {
				break
			}
		}
		conds = append(conds, none)
		k := in.fork(conds)
		if k == len(conds)-1 && !(none.isC() && none.c == 0) {
			return in.i64(-1)
		}
		return in.i64(k)
	}
	reg("internal/bytealg.IndexByte", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return idxByte(in, in.strBytes(in.sliceToStr(args[0].(Slice))), term(args[1]))
	})
	reg("internal/bytealg.IndexByteString", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return idxByte(in, in.strBytes(args[0].(Str)), term(args[1]))
	})
	intrinsics["bytes.IndexByte"] = intrinsics["internal/bytealg.IndexByte"]
	count := func(in *Interp, bs []*Term, c *Term) Value {
		r := in.tt.C(64, 0)
		for _, x := range bs {
			r = in.tt.Add(r, in.tt.Ite(in.tt.Eq(x, c), in.tt.C(64, 1), in.tt.C(64, 0)))
		}
		return r
	}
	reg("internal/bytealg.CountString", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return count(in, in.strBytes(args[0].(Str)), term(args[1]))
	})
	reg("internal/bytealg.Count", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return count(in, in.strBytes(in.sliceToStr(args[0].(Slice))), term(args[1]))
	})
	idxStr := func(in *Interp, s, sub Str) Value {
		a, bb := in.strBytes(s), in.strBytes(sub)
		var conds []*Term
		none := in.tt.tr
		for i := 0; i+len(bb) <= len(a); i++ {
			e := in.tt.tr
			for j := range bb {
				e = in.tt.And(e, in.tt.Eq(a[i+j], bb[j]))
			}
			conds = append(conds, in.tt.And(none, e))
			none = in.tt.And(none, in.tt.Not(e))
		}
		conds = append(conds, none)
		k := in.fork(conds)
		if k == len(conds)-1 {
			return in.i64(-1)
		}
		return in.i64(k)
	}
	reg("strings.Index", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return idxStr(in, args[0].(Str), args[1].(Str))
	})
	reg("bytes.Index", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return idxStr(in, in.sliceToStr(args[0].(Slice)), in.sliceToStr(args[1].(Slice)))
	})
	reg("strings.Contains", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		k := term(idxStr(in, args[0].(Str), args[1].(Str)))
		return in.tt.Bool(sx(64, k.c) >= 0)
	})
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.makeSlice(types.Typ[types.Uint8], in.concInt(args[0]), in.concInt(args[0]))
	})
	reg("strings.Clone", ident)
	reg("internal/stringslite.Clone", ident)
	reg("(*strings.Builder).copyCheck", noop)
	reg("unicode/utf8.DecodeRune", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		bs := in.strBytes(in.sliceToStr(args[0].(Slice)))
		if len(bs) == 0 {
			return Tuple{in.tt.C(32, 0xfffd), in.i64(0)}
		}
		r, n := in.decodeRune(bs)
		return Tuple{r, in.i64(n)}
	})
	reg("unicode/utf8.DecodeRuneInString", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		bs := in.strBytes(args[0].(Str))
		if len(bs) == 0 {
			return Tuple{in.tt.C(32, 0xfffd), in.i64(0)}
		}
		r, n := in.decodeRune(bs)
		return Tuple{r, in.i64(n)}
	})
	// strconv
	mixed("strconv.Itoa", func(in *Interp, a []Value) Value { return s1(strconv.Itoa(n(a[0]))) })
	mixed("strconv.FormatInt", func(in *Interp, a []Value) Value {
		return s1(strconv.FormatInt(int64(term(a[0]).c), n(a[1])))
	})
	mixed("strconv.FormatFloat", func(in *Interp, a []Value) Value {
		return s1(strconv.FormatFloat(f64(term(a[0]).c), byte(term(a[1]).c), n(a[2]), n(a[3])))
	})
	mixed("strconv.AppendFloat", func(in *Interp, a []Value) Value {
		s := strconv.FormatFloat(f64(term(a[1]).c), byte(term(a[2]).c), n(a[3]), n(a[4]))
		return in.appendSlice(a[0].(Slice), in.bytesToSlice(Str{s: s}), types.Typ[types.Uint8])
	})
	mixed("strconv.AppendQuote", func(in *Interp, a []Value) Value {
		return in.appendSlice(a[0].(Slice), in.bytesToSlice(Str{s: strconv.Quote(goStr(a[1]))}), types.Typ[types.Uint8])
	})
	mixed("strconv.Quote", func(in *Interp, a []Value) Value { return s1(strconv.Quote(goStr(a[0]))) })
	numErr := func(in *Interp, err error) Value {
		if err == nil {
			return Iface{}
		}
		// *strconv.NumError{Func, Num, Err}
		ne := err.(*strconv.NumError)
		pkg := in.prog.ImportedPackage("strconv")
		inner := pkg.Var("ErrSyntax")
		if ne.Err == strconv.ErrRange {
			inner = pkg.Var("ErrRange")
		}
		p := new(Value)
		*p = Struct{Str{s: ne.Func}, Str{s: ne.Num}, *in.global(inner)}
		return Iface{t: types.NewPointer(pkg.Type("NumError").Type()), v: p}
	}
	mixed("strconv.ParseFloat", func(in *Interp, a []Value) Value {
		f, err := strconv.ParseFloat(goStr(a[0]), n(a[1]))
		return Tuple{in.tt.C(64, b64(f)), numErr(in, err)}
	})
	mixed("strconv.ParseInt", func(in *Interp, a []Value) Value {
		f, err := strconv.ParseInt(goStr(a[0]), n(a[1]), n(a[2]))
		if _, ok := err.(*strconv.NumError); err != nil && (!ok || (err.(*strconv.NumError).Err != strconv.ErrSyntax && err.(*strconv.NumError).Err != strconv.ErrRange)) {
			panic(unsupported{"strconv error"})
		}
		return Tuple{in.tt.C(64, uint64(f)), numErr(in, err)}
	})
	mixed("strconv.ParseUint", func(in *Interp, a []Value) Value {
		f, err := strconv.ParseUint(goStr(a[0]), n(a[1]), n(a[2]))
		return Tuple{in.tt.C(64, f), numErr(in, err)}
	})

	// fmt, errors
	reg("fmt.Sprintf", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.sprintf(fr, args[0].(Str), in.argSlice(args[1]))
	})
	reg("fmt.Sprint", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return in.sprint(fr, in.argSlice(args[0]))
	})
	reg("fmt.Sprintln", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		s := in.sprint(fr, in.argSlice(args[0]))
		return mkStr(append(append([]*Term{}, in.strBytes(s)...), in.tt.bytes['\n']))
	})
	reg("fmt.Errorf", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		f := goStr(args[0])
		a := in.argSlice(args[1])
		s := in.sprintf(fr, Str{s: strings.ReplaceAll(f, "%w", "%v")}, a)
		if strings.Contains(f, "%w") {
			pkg := in.prog.ImportedPackage("fmt")
			if we := pkg.Type("wrapError"); we != nil {
				// find the wrapped operand
				k := strings.Count(strings.ReplaceAll(f[:strings.Index(f, "%w")], "%%", ""), "%")
				if k < len(a) {
					p := new(Value)
					*p = Struct{s, a[k]}
					return Iface{t: types.NewPointer(we.Type()), v: p}
				}
			}
		}
		return in.mkErr(s)
	})
	for _, nme := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "log.Printf", "log.Println"} {
		reg(nme, noop)
	}
	for _, nme := range []string{"Fprintf", "Fprintln", "Fprint"} {
		nme := nme
		reg("fmt."+nme, func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
			w := args[0].(Iface)
			if w.t == nil {
				panic(in.rtErr("invalid memory address or nil pointer dereference"))
			}
			if w.t.String() == "*os.File" {
				return noop(in, fr, fn, args)
			}
			var s Str
			switch nme {
			case "Fprintf":
				s = in.sprintf(fr, args[1].(Str), in.argSlice(args[2]))
			case "Fprint":
				s = in.sprint(fr, in.argSlice(args[1]))
			default:
				s = mkStr(append(append([]*Term{}, in.strBytes(in.sprint(fr, in.argSlice(args[1])))...), in.tt.bytes['\n']))
			}
			in.sh.mu.Lock()
			m := in.prog.LookupMethod(w.t, nil, "Write")
			in.sh.mu.Unlock()
			return in.call(fr, m, []Value{w.v, in.bytesToSlice(s)})
		})
	}
	reg("maps.clone", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		i := args[0].(Iface)
		m, _ := i.v.(*MapObj)
		if m == nil {
			return i
		}
		c := &MapObj{kt: m.kt, idx: map[string]int{}}
		for j := range m.keys {
			if m.live[j] {
				in.mapSet(c, m.keys[j], m.vals[j])
			}
		}
		return Iface{t: i.t, v: c}
	})
	reg("slices.overlaps", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		a, b := args[0].(Slice), args[1].(Slice)
		for i := range a {
			for j := range b {
				if &a[i] == &b[j] {
					return in.tt.tr
				}
			}
		}
		return in.tt.Bool(false)
	})
	reg("errors.Is", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		e := args[0].(Iface)
		for i := 0; i < 20 && e.t != nil; i++ {
			if c := in.eq(e, args[1]); c.isC() && c.c == 1 {
				return in.tt.tr
			}
			in.sh.mu.Lock()
			m := in.prog.LookupMethod(e.t, nil, "Unwrap")
			in.sh.mu.Unlock()
			if m == nil {
				break
			}
			r, ok := in.call(fr, m, []Value{e.v}).(Iface)
			if !ok {
				break
			}
			e = r
		}
		return in.tt.Bool(e.t == nil && args[1].(Iface).t == nil)
	})

	reg("errors.As", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		e, target := args[0].(Iface), args[1].(Iface)
		want := target.t.Underlying().(*types.Pointer).Elem()
		for i := 0; i < 20 && e.t != nil; i++ {
			it, isI := want.Underlying().(*types.Interface)
			if isI && types.Implements(e.t, it) {
				in.store(target.v, e)
				return in.tt.tr
			}
			if !isI && types.Identical(e.t, want) {
				in.store(target.v, e.v)
				return in.tt.tr
			}
			in.sh.mu.Lock()
			m := in.prog.LookupMethod(e.t, nil, "Unwrap")
			in.sh.mu.Unlock()
			if m == nil {
				break
			}
			r, ok := in.call(fr, m, []Value{e.v}).(Iface)
			if !ok {
				break
			}
			e = r
		}
		return in.tt.Bool(false)
	})

	// regexp
	reMake := func(in *Interp, s string) Value {
		p := new(Value)
		*p = Native{regexp.MustCompile(s)}
		return p
	}
	reg("regexp.MustCompile", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		s := args[0].(Str)
		if s.sym != nil {
			panic(unsupported{"regexp of symbolic pattern"})
		}
		if _, err := regexp.Compile(s.s); err != nil {
			panic(in.plainErr("regexp: Compile(`" + s.s + "`): " + err.Error()))
		}
		return reMake(in, s.s)
	})
	reg("regexp.Compile", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		s := args[0].(Str)
		if s.sym != nil {
			// one path per feasible pattern
			var b []byte
			for _, x := range s.sym {
				b = append(b, byte(in.concretize(x)))
			}
			s = Str{s: string(b)}
		}
		if _, err := regexp.Compile(s.s); err != nil {
			return Tuple{(*Value)(nil), in.mkErr(Str{s: err.Error()})}
		}
		return Tuple{reMake(in, s.s), Iface{}}
	})
	reOf := func(in *Interp, v Value) *regexp.Regexp {
		p := v.(*Value)
		if p == nil {
			panic(in.rtErr("invalid memory address or nil pointer dereference"))
		}
		return (*p).(Native).v.(*regexp.Regexp)
	}
	match := func(in *Interp, re *regexp.Regexp, s Str) Value {
		if s.sym == nil {
			return in.tt.Bool(re.MatchString(s.s))
		}
		return in.reMatch(re, s.sym)
	}
	reg("(*regexp.Regexp).MatchString", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return match(in, reOf(in, args[0]), args[1].(Str))
	})
	reg("(*regexp.Regexp).Match", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return match(in, reOf(in, args[0]), in.sliceToStr(args[1].(Slice)))
	})
	reg("(*regexp.Regexp).String", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return s1(reOf(in, args[0]).String())
	})
	regRe := func(name string, f func(in *Interp, re *regexp.Regexp, a []Value) Value) {
		reg("(*regexp.Regexp)."+name, func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
			if !allConcrete(args[1:]) {
				t, _ := args[1].(Str)
				switch name {
				case "FindStringSubmatch":
					c := in.reFind(reOf(in, args[0]), t.sym)
					if c == nil {
						return Slice(nil)
					}
					r := make(Slice, len(c)/2)
					for i := range r {
						if r[i] = s1(""); c[2*i] >= 0 {
							r[i] = mkStr(t.sym[c[2*i]:c[2*i+1]])
						}
					}
					return r
				case "FindSubmatch":
					b := args[1].(Slice)
					c := in.reFind(reOf(in, args[0]), in.sliceToStr(b).sym)
					if c == nil {
						return Slice(nil)
					}
					r := make(Slice, len(c)/2)
					for i := range r {
						if r[i] = Slice(nil); c[2*i] >= 0 {
							r[i] = b[c[2*i]:c[2*i+1]:c[2*i+1]]
						}
					}
					return r
				case "FindString":
					if c := in.reFind(reOf(in, args[0]), t.sym); c != nil {
						return mkStr(t.sym[c[0]:c[1]])
					}
					return s1("")
				}
				panic(unsupported{"regexp " + name + " on symbolic text"})
			}
			return f(in, reOf(in, args[0]), args[1:])
		})
	}
	regRe("FindStringSubmatch", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		return in.strSlice(re.FindStringSubmatch(goStr(a[0])))
	})
	regRe("FindSubmatch", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		b := a[0].(Slice)
		c := re.FindSubmatchIndex([]byte(in.sliceToStr(b).s))
		if c == nil {
			return Slice(nil)
		}
		r := make(Slice, len(c)/2)
		for i := range r {
			if r[i] = Slice(nil); c[2*i] >= 0 {
				r[i] = b[c[2*i]:c[2*i+1]:c[2*i+1]]
			}
		}
		return r
	})
	regRe("FindString", func(in *Interp, re *regexp.Regexp, a []Value) Value { return s1(re.FindString(goStr(a[0]))) })
	regRe("FindAllString", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		return in.strSlice(re.FindAllString(goStr(a[0]), n(a[1])))
	})
	regRe("ReplaceAllString", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		return s1(re.ReplaceAllString(goStr(a[0]), goStr(a[1])))
	})
	regRe("Split", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		return in.strSlice(re.Split(goStr(a[0]), n(a[1])))
	})
	ints := func(in *Interp, x []int) Value {
		if x == nil {
			return Slice(nil)
		}
		r := make(Slice, len(x))
		for i := range x {
			r[i] = in.i64(x[i])
		}
		return r
	}
	regRe("FindStringIndex", func(in *Interp, re *regexp.Regexp, a []Value) Value {
		return ints(in, re.FindStringIndex(goStr(a[0])))
	})
	reg("regexp.QuoteMeta", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		return s1(regexp.QuoteMeta(goStr(args[0])))
	})

	// sync, atomic, runtime
	for _, m := range []string{"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock"} {
		reg(m, func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value { in.locked++; return nil })
	}
	for _, m := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock"} {
		reg(m, func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value { in.locked--; return nil })
	}
	for _, m := range []string{"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.GC", "runtime.ReadMemStats", "runtime.KeepAlive", "runtime.Gosched", "runtime.SetFinalizer", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		reg(m, noop)
	}
	reg("(*sync.Mutex).TryLock", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value { in.locked++; return in.tt.tr })
	reg("(*sync.Once).Do", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		p := args[0].(*Value)
		if in.onces == nil {
			in.onces = map[*Value]bool{}
		}
		if !in.onces[p] {
			in.onces[p] = true
			in.trail = append(in.trail, trailEnt{f: func() { delete(in.onces, p) }})
			in.locked++
			in.call(fr, args[1], nil)
			in.locked--
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		p := args[0].(*Value)
		if q := in.pools[p]; len(q) > 0 {
			v := q[len(q)-1]
			in.pools[p] = q[:len(q)-1]
			in.trail = append(in.trail, trailEnt{f: func() { in.pools[p] = q }})
			return v
		}
		s := (*p).(Struct)
		nw := s[len(s)-1]
		if c, ok := nw.(*Closure); ok && c == nil {
			return Iface{}
		}
		return in.call(fr, nw, nil)
	})
	reg("(*sync.Pool).Put", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		p := args[0].(*Value)
		q := in.pools[p]
		in.pools[p] = append(append([]Value(nil), q...), args[1])
		in.trail = append(in.trail, trailEnt{f: func() { in.pools[p] = q }})
		return nil
	})
	// atomics on plain cells
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		reg("sync/atomic.Load"+ty, func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
			return in.load(args[0], nil)
		})
		reg("sync/atomic.Store"+ty, func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
			in.locked++
			in.store(args[0], args[1])
			in.locked--
			return nil
		})
		reg("sync/atomic.Add"+ty, func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
			in.locked++
			v := in.tt.Add(term(in.load(args[0], nil)), term(args[1]))
			in.store(args[0], v)
			in.locked--
			return v
		})
	}

	// sort
	reg("sort.Strings", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		s := args[0].(Slice)
		in.insertionSort(len(s), func(i, j int) *Term { return in.strLess(s[i].(Str), s[j].(Str), false) }, func(i, j int) {
			a, b := s[i], s[j]
			in.storeCell(&s[i], b)
			in.storeCell(&s[j], a)
		})
		return nil
	})
	slicesort := func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		var s Slice
		switch x := args[0].(type) {
		case Iface:
			s = x.v.(Slice)
		case Slice:
			s = x
		}
		in.insertionSort(len(s), func(i, j int) *Term {
			return term(in.call(fr, args[1], []Value{in.i64(i), in.i64(j)}))
		}, func(i, j int) {
			a, b := copyVal(s[i]), copyVal(s[j])
			in.storeCell(&s[i], b)
			in.storeCell(&s[j], a)
		})
		return nil
	}
	reg("sort.Slice", slicesort)
	reg("sort.SliceStable", slicesort)

	// time
	for _, n := range []string{"time.runtimeNano", "time.runtimeNow"} {
		reg(n, func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value { return in.i64(1000) })
	}
	// the zone of the process: UTC
	reg("time.initLocal", noop)
	reg("time.Parse", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		l, v := args[0].(Str), args[1].(Str)
		if l.sym != nil || v.sym != nil {
			return in.viaBody(fr, fn, args)
		}
		t, err := time.Parse(l.s, v.s)
		st := in.timeVal(t)
		if err != nil {
			return Tuple{st, in.mkErr(Str{s: err.Error()})}
		}
		return Tuple{st, Iface{}}
	})

	// encoding/json on concrete data
	reg("encoding/json.Unmarshal", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		s := in.sliceToStr(args[0].(Slice))
		if s.sym != nil {
			// decoded by the harness
			dst := args[1].(Iface)
			f := "vzJSON"
			switch et := dst.t.Underlying().(*types.Pointer).Elem().Underlying().(type) {
			case *types.Slice:
				f = "vzJSONList"
			case *types.Interface:
			default:
				panic(unsupported{"json.Unmarshal of symbolic data into " + et.String()})
			}
			r := in.callFn(fr, in.sh.pkg.Func(f), []Value{args[0]}, nil).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				return e
			}
			in.storeCell(dst.v.(*Value), r[0])
			return Iface{}
		}
		dst := args[1].(Iface)
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported{"json.Unmarshal target"})
		}
		cell := dst.v.(*Value)
		switch et := pt.Elem().Underlying().(type) {
		case *types.Interface:
			var x interface{}
			if err := json.Unmarshal([]byte(s.s), &x); err != nil {
				return in.mkErr(Str{s: err.Error()})
			}
			in.storeCell(cell, in.fromJSON(x))
			return Iface{}
		case *types.Slice:
			if _, ok := et.Elem().Underlying().(*types.Interface); ok {
				var x []interface{}
				if err := json.Unmarshal([]byte(s.s), &x); err != nil {
					return in.mkErr(Str{s: err.Error()})
				}
				in.storeCell(cell, in.fromJSON(x).(Iface).v)
				return Iface{}
			}
		case *types.Map:
			if _, ok := et.Elem().Underlying().(*types.Interface); ok {
				var x map[string]interface{}
				if err := json.Unmarshal([]byte(s.s), &x); err != nil {
					return in.mkErr(Str{s: err.Error()})
				}
				in.storeCell(cell, in.fromJSON(x).(Iface).v)
				return Iface{}
			}
		}
		panic(unsupported{"json.Unmarshal into " + pt.Elem().String()})
	})
	reg("os.Getenv", func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value { return Str{} })
}

func (in *Interp) insertionSort(n int, less func(i, j int) *Term, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			l := less(j, j-1)
			if in.fork([]*Term{l, in.tt.Not(l)}) == 1 {
				break
			}
			swap(j, j-1)
		}
	}
}

func (in *Interp) timeVal(t time.Time) Value {
	type raw struct {
		wall uint64
		ext  int64
		loc  unsafe.Pointer
	}
	r := (*raw)(unsafe.Pointer(&t))
	return Struct{in.tt.C(64, r.wall), in.tt.C(64, uint64(r.ext)), (*Value)(nil)}
}

var (
	tyIface  = types.NewInterfaceType(nil, nil)
	tySliceI = types.NewSlice(tyIface)
	tyMapI   = types.NewMap(types.Typ[types.String], tyIface)
)

func (in *Interp) fromJSON(x interface{}) Value {
	switch x := x.(type) {
	case nil:
		return Iface{}
	case bool:
		return Iface{types.Typ[types.Bool], in.tt.Bool(x)}
	case float64:
		return Iface{types.Typ[types.Float64], in.tt.C(64, b64(x))}
	case string:
		return Iface{types.Typ[types.String], Str{s: x}}
	case []interface{}:
		s := make(Slice, len(x))
		for i := range x {
			s[i] = in.fromJSON(x[i])
		}
		return Iface{tySliceI, s}
	case map[string]interface{}:
		m := newMap(types.Typ[types.String])
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m.idx["s"+k] = len(m.keys)
			m.keys = append(m.keys, Str{s: k})
			m.vals = append(m.vals, in.fromJSON(x[k]))
			m.live = append(m.live, true)
			m.n++
		}
		return Iface{tyMapI, m}
	}
	panic(unsupported{"fromJSON"})
}

// fmtStr renders a string for reports, using the current witness.
func (in *Interp) fmtStr(s Str) string {
	if s.sym == nil {
		return s.s
	}
	b := make([]byte, len(s.sym))
	for i, t := range s.sym {
		b[i] = byte(in.tt.Eval(t, in.p.model))
	}
	return string(b)
}

// sprintf formats; %s and %v of symbolic strings are spliced symbolically.
func (in *Interp) sprintf(fr *Frame, f Str, args []Value) Str {
	if f.sym != nil {
		panic(unsupported{"symbolic format"})
	}
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, in.tt.bytes[s[i]])
		}
	}
	fs := f.s
	ai := 0
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			out = append(out, in.tt.bytes[fs[i]])
			i++
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			lit("%!(NOVERB)")
			break
		}
		verb := fs[i : j+1]
		i = j + 1
		if verb == "%%" {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + verb[len(verb)-1:] + "(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == "%s" || verb == "%v" || verb == "%+v" {
			s := in.valStr(fr, a, verb == "%+v", verb == "%s")
			out = append(out, in.strBytes(s)...)
			continue
		}
		if verb == "%T" {
			if a.t == nil {
				lit("<nil>")
			} else {
				lit(strings.ReplaceAll(a.t.String(), repoPkg, "gojsonsm"))
			}
			continue
		}
		switch v := a.v.(type) {
		case *Term:
			if !v.isC() {
				in.p.approx = true
			}
			lit(fmt.Sprintf(verb, in.goScalar(a.t, in.tt.Eval(v, in.p.model))))
		case Str:
			if v.sym != nil {
				in.p.approx = true
			}
			lit(fmt.Sprintf(verb, in.fmtStr(v)))
		case Slice:
			if in.isByteSlice(a.t) {
				lit(fmt.Sprintf(verb, in.fmtStr(in.sliceToStr(v))))
			} else {
				lit(in.fmtStr(in.valStr(fr, a, false, false)))
			}
		default:
			lit(in.fmtStr(in.valStr(fr, a, false, false)))
		}
	}
	return mkStr(out)
}

func (in *Interp) isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && in.tinfo(s.Elem()) == tinfo{kUint, 8}
}

func (in *Interp) sprint(fr *Frame, args []Value) Str {
	var out []*Term
	for i, a := range args {
		x := a.(Iface)
		if i > 0 {
			_, s1 := x.v.(Str)
			_, s0 := args[i-1].(Iface).v.(Str)
			if !s1 && !s0 {
				out = append(out, in.tt.bytes[' '])
			}
		}
		out = append(out, in.strBytes(in.valStr(fr, x, false, false))...)
	}
	return mkStr(out)
}

func (in *Interp) goScalar(t types.Type, v uint64) interface{} {
	i := in.tinfo(t)
	switch i.k {
	case kBool:
		return v == 1
	case kInt:
		switch i.w {
		case 8:
			return int8(v)
		case 16:
			return int16(v)
		case 32:
			return int32(v)
		}
		return int64(v)
	case kUint:
		switch i.w {
		case 8:
			return uint8(v)
		case 16:
			return uint16(v)
		case 32:
			return uint32(v)
		}
		return v
	case kFloat:
		if i.w == 32 {
			return math.Float32frombits(uint32(v))
		}
		return f64(v)
	}
	return v
}

func (in *Interp) valStr(fr *Frame, a Iface, plus, sverb bool) Str {
	if a.t == nil {
		return Str{s: "<nil>"}
	}
	for _, mn := range []string{"Error", "String"} {
		in.sh.mu.Lock()
		sel := in.prog.MethodSets.MethodSet(a.t).Lookup(nil, mn)
		var m *ssa.Function
		if sel != nil {
			if sig, ok := sel.Type().(*types.Signature); ok && sig.Params().Len() == 0 && sig.Results().Len() == 1 && in.tinfo0(sig.Results().At(0).Type()).k == kString {
				m = in.prog.MethodValue(sel)
			}
		}
		in.sh.mu.Unlock()
		if m != nil {
			if isNilPtr(a.v) && a.v != nil {
				if _, isP := a.v.(*Value); isP {
					return Str{s: "<nil>"}
				}
			}
			if in.finfo(m).intr != nil || len(m.Blocks) > 0 {
				if r, ok := in.call(fr, m, []Value{a.v}).(Str); ok {
					return r
				}
			}
		}
	}
	switch v := a.v.(type) {
	case *Term:
		if !v.isC() {
			in.p.approx = true
		}
		return Str{s: fmt.Sprint(in.goScalar(a.t, in.tt.Eval(v, in.p.model)))}
	case Str:
		return v
	case Slice:
		if in.isByteSlice(a.t) && sverb {
			return in.sliceToStr(v)
		}
		et := a.t.Underlying().(*types.Slice).Elem()
		return in.seqStr(fr, v, et, "[", "]", plus)
	case Array:
		et := a.t.Underlying().(*types.Array).Elem()
		return in.seqStr(fr, v, et, "[", "]", plus)
	case Struct:
		st := a.t.Underlying().(*types.Struct)
		var out []*Term
		out = append(out, in.tt.bytes['{'])
		for i, x := range v {
			if i > 0 {
				out = append(out, in.tt.bytes[' '])
			}
			if plus {
				out = append(out, in.strBytes(Str{s: st.Field(i).Name() + ":"})...)
			}
			out = append(out, in.strBytes(in.valStr(fr, in.asIface(st.Field(i).Type(), x), plus, sverb))...)
		}
		return mkStr(append(out, in.tt.bytes['}']))
	case *Value:
		if v == nil {
			return Str{s: "<nil>"}
		}
		return Str{s: "0xc000000000"}
	case *MapObj:
		if v == nil {
			return Str{s: "map[]"}
		}
		mt := a.t.Underlying().(*types.Map)
		type kv struct{ k, v string }
		var l []kv
		for i := range v.keys {
			if v.live[i] {
				l = append(l, kv{in.fmtStr(in.valStr(fr, in.asIface(mt.Key(), v.keys[i]), plus, sverb)), in.fmtStr(in.valStr(fr, in.asIface(mt.Elem(), v.vals[i]), plus, sverb))})
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		s := "map["
		for i, e := range l {
			if i > 0 {
				s += " "
			}
			s += e.k + ":" + e.v
		}
		return Str{s: s + "]"}
	}
	return Str{s: "?"}
}

func (in *Interp) tinfo0(t types.Type) tinfo { return basicInfo(t) }

func (in *Interp) asIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t, v}
}

func (in *Interp) seqStr(fr *Frame, s []Value, et types.Type, o, c string, plus bool) Str {
	out := in.strBytes(Str{s: o})
	out = append([]*Term{}, out...)
	for i, x := range s {
		if i > 0 {
			out = append(out, in.tt.bytes[' '])
		}
		out = append(out, in.strBytes(in.valStr(fr, in.asIface(et, x), plus, false))...)
	}
	return mkStr(append(out, in.strBytes(Str{s: c})...))
}
