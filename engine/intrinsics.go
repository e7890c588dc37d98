package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(r *Run, args []Value) Value

const modPath = "github.com/mlange-42/bbn"
const vhPath = modPath + "/internal/zzverif/vh"

// findIntrinsic returns the engine's implementation of a function, or nil to interpret its code.
func findIntrinsic(name string, fn *ssa.Function) intrinsic {
	if i := strings.IndexByte(name, '['); i > 0 && !strings.HasPrefix(name, "(") {
		name = name[:i]
	}
	if strings.HasPrefix(name, vhPath+".") {
		if f, ok := vhIntr[name[len(vhPath)+1:]]; ok {
			return f
		}
		return nil
	}
	if f, ok := intr[name]; ok {
		return f
	}
	if g, ok := natives[name]; ok {
		return wrapNative(name, g, fn)
	}
	return nil
}

// natives are pure library functions called directly when their arguments are concrete, interpreted otherwise.
var natives = map[string]interface{}{
	"strings.Contains": strings.Contains, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Fields": strings.Fields,
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.TrimSuffix": strings.TrimSuffix, "strings.TrimPrefix": strings.TrimPrefix,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.LastIndex": strings.LastIndex, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny,
	"github.com/rivo/tview.Escape": tviewEscape,
	"strings.ToLower":              strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Join": strings.Join, "strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.EqualFold": strings.EqualFold, "strings.Count": strings.Count, "strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.Cut": strings.Cut, "strings.Compare": strings.Compare, "strings.Title": strings.Title,
	"strconv.Itoa": strconv.Itoa, "strconv.ParseBool": strconv.ParseBool, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatBool": strconv.FormatBool, "strconv.ParseUint": strconv.ParseUint,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPrint": unicode.IsPrint,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.ValidRune": utf8.ValidRune,
	"path.Join": path.Join, "path.Ext": path.Ext, "path.Base": path.Base, "path.Dir": path.Dir, "path/filepath.Ext": filepath.Ext, "path/filepath.Join": filepath.Join, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir,
	"math.Pow": math.Pow, "math.Sqrt": math.Sqrt, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Log": math.Log, "math.Exp": math.Exp, "math.Mod": math.Mod, "math.Hypot": math.Hypot, "math.Cbrt": math.Cbrt, "math.Copysign": math.Copysign, "math.RoundToEven": math.RoundToEven, "math.Exp2": math.Exp2, "math.Nextafter": math.Nextafter, "math.Ldexp": math.Ldexp,
	"math/bits.OnesCount": func(x uint) int { return bitsCount(uint64(x)) }, "math/bits.OnesCount64": bitsCount, "math/bits.Len": func(x uint) int { return bitsLen(uint64(x)) }, "math/bits.Len64": bitsLen, "math/bits.TrailingZeros": func(x uint) int { return bitsTZ(uint64(x)) },
}

func bitsCount(x uint64) int {
	n := 0
	for ; x != 0; x &= x - 1 {
		n++
	}
	return n
}
func bitsLen(x uint64) int {
	n := 0
	for ; x != 0; x >>= 1 {
		n++
	}
	return n
}
func bitsTZ(x uint64) int {
	if x == 0 {
		return 64
	}
	n := 0
	for ; x&1 == 0; x >>= 1 {
		n++
	}
	return n
}

func wrapNative(name string, g interface{}, fn *ssa.Function) intrinsic {
	rv := reflect.ValueOf(g)
	rt := rv.Type()
	var body *cfunc
	return func(r *Run, args []Value) Value {
		in := make([]reflect.Value, rt.NumIn())
		for i := range in {
			v, ok := toGo(args[i], rt.In(i))
			if !ok {
				// symbolic argument: interpret the real code
				if body == nil {
					if fn.Blocks == nil {
						panic(unsupported{"symbolic argument to " + name})
					}
					b := &cfunc{fn: fn, name: name}
					r.ex.prog.mu.Lock()
					r.ex.prog.compileBody(b)
					r.ex.prog.mu.Unlock()
					body = b
				}
				return r.callBody(body, args)
			}
			in[i] = v
		}
		var out []reflect.Value
		if rt.IsVariadic() {
			out = rv.CallSlice(in)
		} else {
			out = rv.Call(in)
		}
		res := make(Tuple, len(out))
		for i, o := range out {
			res[i] = r.fromGo(o)
		}
		if len(res) == 1 {
			return res[0]
		}
		return res
	}
}

func (r *Run) callBody(cf *cfunc, args []Value) Value {
	r.depth++
	fr := &frame{r: r, cf: cf, regs: make([]Value, cf.nregs), caller: r.curFr, prev: -1}
	copy(fr.regs, args)
	fr.block = cf.blocks[0]
	r.curFr = fr
	if cf.hasDefer {
		fr.runWithDefers()
	} else {
		fr.exec()
	}
	r.curFr = fr.caller
	r.depth--
	return fr.result
}

func toGo(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		if !ok {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(s).Convert(t), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		i, ok := v.(int64)
		if !ok {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(i).Convert(t), true
	case reflect.Bool:
		b, ok := v.(bool)
		return reflect.ValueOf(b), ok
	case reflect.Float64:
		switch x := v.(type) {
		case *big.Rat:
			f, _ := x.Float64()
			return reflect.ValueOf(f), true
		case float64:
			return reflect.ValueOf(x), true
		}
	case reflect.Slice:
		s, ok := v.([]Value)
		if !ok {
			return reflect.Value{}, false
		}
		out := reflect.MakeSlice(t, len(s), len(s))
		for i := range s {
			e, ok := toGo(s[i], t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			out.Index(i).Set(e)
		}
		return out, true
	}
	return reflect.Value{}, false
}

func (r *Run) fromGo(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint())
	case reflect.Bool:
		return v.Bool()
	case reflect.Float64:
		return ratOf(v.Float())
	case reflect.Slice:
		if v.IsNil() {
			return []Value(nil)
		}
		out := make([]Value, v.Len())
		for i := range out {
			out[i] = r.fromGo(v.Index(i))
		}
		return out
	case reflect.Interface:
		if v.IsNil() {
			return Iface{}
		}
		if e, ok := v.Interface().(error); ok {
			return r.mkError(e.Error())
		}
	}
	panic(unsupported{"fromGo " + v.Kind().String()})
}

// mkError makes an error value through errors.New.
func (r *Run) mkError(msg Value) Value {
	f := r.ex.prog.funcs["errors.New"]
	saved := r.curFr
	v := r.call(f, []Value{msg}, nil)
	r.curFr = saved
	return v
}

// typeIn finds a named type of a loaded package, or nil.
func (p *Program) typeIn(pkg, name string) types.Type {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == pkg {
			if t := pk.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	return nil
}

var ptrTypes sync.Map

// ptrTo gives the same pointer type each time.
func ptrTo(t types.Type) types.Type {
	p, _ := ptrTypes.LoadOrStore(t, types.NewPointer(t))
	return p.(types.Type)
}

func (p *Program) globalIn(pkg, name string) *ssa.Global {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == pkg {
			return pk.Var(name)
		}
	}
	return nil
}

// numError makes the error of a strconv function.
func (r *Run) numError(err error) Value {
	ne, ok := err.(*strconv.NumError)
	t := r.ex.prog.typeIn("strconv", "NumError")
	if !ok || t == nil {
		return r.mkError(err.Error())
	}
	var inner Value
	switch ne.Err {
	case strconv.ErrSyntax:
		inner = *r.global(r.ex.prog.globalIn("strconv", "ErrSyntax"))
	case strconv.ErrRange:
		inner = *r.global(r.ex.prog.globalIn("strconv", "ErrRange"))
	default:
		inner = r.mkError(ne.Err.Error())
	}
	p := new(Value)
	*p = Struct{ne.Func, ne.Num, inner}
	return Iface{ptrTo(t), p}
}

// notExist is the error of opening a file that is not there.
func (r *Run) notExist(path string) Value {
	pe, no := r.ex.prog.typeIn("io/fs", "PathError"), r.ex.prog.typeIn("syscall", "Errno")
	if pe == nil || no == nil {
		return r.mkError("open " + path + ": no such file or directory")
	}
	p := new(Value)
	*p = Struct{"open", path, Iface{no, int64(2)}}
	return Iface{ptrTo(pe), p}
}

func rf(v Value) (float64, bool) {
	switch x := v.(type) {
	case *big.Rat:
		f, _ := x.Float64()
		return f, true
	case float64:
		return x, true
	}
	return 0, false
}

// appendStr appends a text to bytes.
func appendStr(b, s Value) Value {
	old := sl(b)
	return append(append(make([]Value, 0, len(old)), old...), strBytes(s)...)
}

func nop(r *Run, args []Value) Value { return nil }

func ret(v Value) intrinsic { return func(*Run, []Value) Value { return v } }

var intr map[string]intrinsic

func init() {
	intr = map[string]intrinsic{
		// math on exact reals
		"math.IsNaN": func(r *Run, a []Value) Value { f, ok := a[0].(float64); return ok && math.IsNaN(f) },
		"math.IsInf": func(r *Run, a []Value) Value {
			f, ok := a[0].(float64)
			return ok && math.IsInf(f, int(r.concInt(a[1])))
		},
		"math.NaN": func(r *Run, a []Value) Value { return math.NaN() },
		"math.Inf": func(r *Run, a []Value) Value {
			if r.concInt(a[0]) >= 0 {
				return math.Inf(1)
			}
			return math.Inf(-1)
		},
		"math.Abs": func(r *Run, a []Value) Value {
			if f, ok := a[0].(float64); ok {
				return math.Abs(f)
			}
			if r.isTrue(r.fcmp("<", a[0], ratZero)) {
				return r.fbin("-", ratZero, a[0])
			}
			return a[0]
		},
		"math.Max": func(r *Run, a []Value) Value { return r.fminmax(a[0], a[1], true) },
		"math.Min": func(r *Run, a []Value) Value { return r.fminmax(a[0], a[1], false) },
		"math.Modf": func(r *Run, a []Value) Value {
			switch x := a[0].(type) {
			case float64:
				i, f := math.Modf(x)
				return Tuple{ratOrSpecial(i), ratOrSpecial(f)}
			case *big.Rat:
				i := new(big.Int).Quo(x.Num(), x.Denom())
				ir := new(big.Rat).SetInt(i)
				return Tuple{ir, new(big.Rat).Sub(x, ir)}
			case *Term:
				n := big.NewRat(r.TruncConc(x), 1)
				return Tuple{n, r.fbin("-", x, n)}
			}
			panic(unsupported{"Modf"})
		},
		"math.Trunc": func(r *Run, a []Value) Value { return r.fround(a[0], "trunc") },
		"math.Floor": func(r *Run, a []Value) Value { return r.fround(a[0], "floor") },
		"math.Ceil":  func(r *Run, a []Value) Value { return r.fround(a[0], "ceil") },
		"math.Round": func(r *Run, a []Value) Value { return r.fround(a[0], "round") },
		"math.Signbit": func(r *Run, a []Value) Value {
			if f, ok := a[0].(float64); ok {
				return math.Signbit(f)
			}
			return r.fcmp("<", a[0], ratZero)
		},
		"math.Float64frombits": func(r *Run, a []Value) Value { return ratOf(math.Float64frombits(uint64(r.concInt(a[0])))) },
		"math.Float64bits": func(r *Run, a []Value) Value {
			f, ok := rf(a[0])
			if !ok {
				panic(unsupported{"Float64bits of a symbolic value"})
			}
			return int64(math.Float64bits(f))
		},

		// strconv with symbolic number tokens
		"strconv.ParseFloat": func(r *Run, a []Value) Value {
			s, ok := a[0].(string)
			if !ok {
				panic(unsupported{"ParseFloat of a symbolic string"})
			}
			if t := r.tokenOf(s); t != nil {
				if r.concInt(a[1]) == 32 {
					return Tuple{r.narrow32(t), Iface{}}
				}
				return Tuple{t, Iface{}}
			}
			if r.concInt(a[1]) == 32 {
				f, err := strconv.ParseFloat(s, 32)
				if err != nil {
					return Tuple{ratOf(f), r.numError(err)}
				}
				return Tuple{ratOf(f), Iface{}}
			}
			return r.parseFloat(s)
		},
		"strconv.Atoi": func(r *Run, a []Value) Value {
			s := r.concString(a[0])
			if t := r.intTokenOf(s); t != nil {
				return Tuple{r.tm.Resize(t, 64, true), Iface{}}
			}
			x, err := strconv.Atoi(s)
			if err != nil {
				return Tuple{int64(x), r.numError(err)}
			}
			return Tuple{int64(x), Iface{}}
		},
		"strconv.ParseInt": func(r *Run, a []Value) Value {
			s := r.concString(a[0])
			if t := r.intTokenOf(s); t != nil && r.concInt(a[2]) != 32 {
				return Tuple{r.tm.Resize(t, 64, true), Iface{}}
			}
			x, err := strconv.ParseInt(s, int(r.concInt(a[1])), int(r.concInt(a[2])))
			if err != nil {
				return Tuple{x, r.numError(err)}
			}
			return Tuple{x, Iface{}}
		},
		"strconv.FormatFloat": func(r *Run, a []Value) Value {
			if t, ok := a[0].(*Term); ok {
				prec := r.concInt(a[2])
				fm := byte(r.concInt(a[1]))
				if prec < 0 {
					return r.token(t)
				}
				return mkStr(r.fmtFloat(t, string(fm), 0, int(prec), false, false))
			}
			f, _ := rf(a[0])
			return strconv.FormatFloat(f, byte(r.concInt(a[1])), int(r.concInt(a[2])), int(r.concInt(a[3])))
		},

		"fmt.Sprintf": func(r *Run, a []Value) Value { return r.sprintf(a[0], sl(a[1])) },
		"fmt.Errorf": func(r *Run, a []Value) Value {
			r.inErrorf = true
			defer func() { r.inErrorf = false }()
			return r.errorf(a[0], sl(a[1]))
		},
		"fmt.Append":   func(r *Run, a []Value) Value { return appendStr(a[0], r.sprint(sl(a[1]), false)) },
		"fmt.Appendln": func(r *Run, a []Value) Value { return appendStr(a[0], r.sprint(sl(a[1]), true)) },
		"fmt.Appendf":  func(r *Run, a []Value) Value { return appendStr(a[0], r.sprintf(a[1], sl(a[2]))) },
		"strconv.AppendFloat": func(r *Run, a []Value) Value {
			return appendStr(a[0], intr["strconv.FormatFloat"](r, a[1:]))
		},
		"maps.clone": func(r *Run, a []Value) Value {
			i := a[0].(Iface)
			m, _ := i.v.(*MapV)
			if m == nil {
				return i
			}
			c := &MapV{idx: map[interface{}]int{}, n: m.n, sym: m.sym}
			for k, v := range m.idx {
				c.idx[k] = v
			}
			for _, e := range m.ent {
				e.v = copyVal(e.v)
				c.ent = append(c.ent, e)
			}
			return Iface{i.t, c}
		},
		"math.FMA": func(r *Run, a []Value) Value { return r.fbin("+", r.fbin("*", a[0], a[1]), a[2]) },
		"reflect.DeepEqual": func(r *Run, a []Value) Value {
			x, y := a[0].(Iface), a[1].(Iface)
			if x.t == nil || y.t == nil {
				return x.t == nil && y.t == nil
			}
			return types.Identical(x.t, y.t) && r.deepEq(x.t, x.v, y.v, 0)
		},
		"log.Printf": nop, "log.Println": nop, "log.Print": nop,
		"fmt.Sprint":   func(r *Run, a []Value) Value { return r.sprint(sl(a[0]), false) },
		"fmt.Sprintln": func(r *Run, a []Value) Value { return r.sprint(sl(a[0]), true) },
		"fmt.Printf":   func(r *Run, a []Value) Value { r.stdout(r.sprintf(a[0], sl(a[1]))); return Tuple{int64(0), Iface{}} },
		"fmt.Println":  func(r *Run, a []Value) Value { r.stdout(r.sprint(sl(a[0]), true)); return Tuple{int64(0), Iface{}} },
		"fmt.Print":    func(r *Run, a []Value) Value { r.stdout(r.sprint(sl(a[0]), false)); return Tuple{int64(0), Iface{}} },
		"fmt.Fprintf":  func(r *Run, a []Value) Value { return r.fprint(a[0], r.sprintf(a[1], sl(a[2]))) },
		"fmt.Fprintln": func(r *Run, a []Value) Value { return r.fprint(a[0], r.sprint(sl(a[1]), true)) },
		"fmt.Fprint":   func(r *Run, a []Value) Value { return r.fprint(a[0], r.sprint(sl(a[1]), false)) },

		"(*strings.Builder).copyCheck": nop,
		"(*strings.Builder).String": func(r *Run, a []Value) Value {
			p := a[0].(*Value)
			if p == nil {
				r.nilDeref()
			}
			return mkStr(sl((*p).(Struct)[1]))
		},
		"(*strings.Builder).Grow": nop,
		"(*strings.Builder).grow": nop,
		"(*bytes.Buffer).Grow":    nop,
		"internal/bytealg.MakeNoZero": func(r *Run, a []Value) Value {
			n := int(r.concInt(a[0]))
			return makeSlice(types.Typ[types.Uint8], n, n)
		},
		"internal/bytealg.IndexByte": func(r *Run, a []Value) Value {
			s := sl(a[0])
			for i := range s {
				if r.isTrue(r.eq(types.Typ[types.Uint8], s[i], a[1])) {
					return int64(i)
				}
			}
			return int64(-1)
		},
		"internal/bytealg.IndexByteString": func(r *Run, a []Value) Value {
			s := strBytes(a[0])
			for i := range s {
				if r.isTrue(r.eq(types.Typ[types.Uint8], s[i], a[1])) {
					return int64(i)
				}
			}
			return int64(-1)
		},
		"internal/bytealg.Equal":         func(r *Run, a []Value) Value { return r.streq(mkStr(sl(a[0])), mkStr(sl(a[1]))) },
		"bytes.Equal":                    func(r *Run, a []Value) Value { return r.streq(mkStr(sl(a[0])), mkStr(sl(a[1]))) },
		"internal/bytealg.CompareString": func(r *Run, a []Value) Value { return r.strCompare(a[0], a[1]) },
		"internal/bytealg.Compare":       func(r *Run, a []Value) Value { return r.strCompare(mkStr(sl(a[0])), mkStr(sl(a[1]))) },
		"internal/bytealg.CountString": func(r *Run, a []Value) Value {
			n := int64(0)
			for _, c := range strBytes(a[0]) {
				if r.isTrue(r.eq(types.Typ[types.Uint8], c, a[1])) {
					n++
				}
			}
			return n
		},
		"internal/stringslite.Clone": func(r *Run, a []Value) Value { return a[0] },
		"strings.Clone":              func(r *Run, a []Value) Value { return a[0] },
		"bytes.IndexByte": func(r *Run, a []Value) Value {
			s := sl(a[0])
			for i := range s {
				if r.isTrue(r.eq(types.Typ[types.Uint8], s[i], a[1])) {
					return int64(i)
				}
			}
			return int64(-1)
		},
		"internal/bytealg.Count": func(r *Run, a []Value) Value {
			n := int64(0)
			for _, c := range sl(a[0]) {
				if r.isTrue(r.eq(types.Typ[types.Uint8], c, a[1])) {
					n++
				}
			}
			return n
		},

		// synchronisation in a single-threaded execution
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop, "(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop, "(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"(*sync.Mutex).TryLock": ret(true),
		"(*sync.Once).Do": func(r *Run, a []Value) Value {
			p := a[0].(*Value)
			key := fmt.Sprintf("once%p", p)
			if r.natives[key] == nil {
				r.natives[key] = true
				r.callValue(a[1], nil)
			}
			return nil
		},
		"(*sync.Pool).Get": func(r *Run, a []Value) Value {
			s := (*a[0].(*Value)).(Struct)
			nf := s[len(s)-1]
			if nf == nil {
				return Iface{}
			}
			return r.callValue(nf, nil)
		},
		"(*sync.Pool).Put": nop,

		"(*sync.WaitGroup).Add": nop, "(*sync.WaitGroup).Done": nop, "(*sync.WaitGroup).Wait": nop,
		"(*sync/atomic.Value).Load": func(r *Run, a []Value) Value {
			if v, ok := r.natives[fmt.Sprintf("atomic%p", a[0].(*Value))].(Iface); ok {
				return v
			}
			return Iface{}
		},
		"(*sync/atomic.Value).Store": func(r *Run, a []Value) Value {
			r.natives[fmt.Sprintf("atomic%p", a[0].(*Value))] = a[1].(Iface)
			return nil
		},
		"(*sync.Map).Load": func(r *Run, a []Value) Value {
			m := r.syncMap(a[0])
			if i := r.slot(m, a[1], anyType); i >= 0 {
				return Tuple{m.ent[i].v, true}
			}
			return Tuple{Iface{}, false}
		},
		"(*sync.Map).Store": func(r *Run, a []Value) Value { r.mapSet(r.syncMap(a[0]), a[1], a[2], anyMap); return nil },
		"(*sync.Map).LoadOrStore": func(r *Run, a []Value) Value {
			m := r.syncMap(a[0])
			if i := r.slot(m, a[1], anyType); i >= 0 {
				return Tuple{m.ent[i].v, true}
			}
			r.mapSet(m, a[1], a[2], anyMap)
			return Tuple{a[2], false}
		},
		"(*sync.Map).Delete": func(r *Run, a []Value) Value {
			m := r.syncMap(a[0])
			if i := r.slot(m, a[1], anyType); i >= 0 {
				m.remove(i)
			}
			return nil
		},
		"(*sync.Map).Range": func(r *Run, a []Value) Value {
			m := r.syncMap(a[0])
			for i := 0; i < len(m.ent); i++ {
				if !m.ent[i].del && !r.isTrue(r.callValue(a[1], []Value{m.ent[i].k, m.ent[i].v})) {
					break
				}
			}
			return nil
		},

		"internal/reflectlite.TypeOf": func(r *Run, a []Value) Value { return Iface{errTypeAny, &Native{kind: "rtype"}} },
		"errors.As":                   func(r *Run, a []Value) Value { return r.errorsAs(a[0].(Iface), a[1].(Iface)) },
		"sort.Slice":                  func(r *Run, a []Value) Value { r.sortSlice(a[0], a[1], false); return nil },
		"sort.SliceStable":            func(r *Run, a []Value) Value { r.sortSlice(a[0], a[1], true); return nil },
		"errors.Is":                   func(r *Run, a []Value) Value { return r.errorsIs(a[0].(Iface), a[1].(Iface)) },

		"os.Exit": func(r *Run, a []Value) Value { panic(exitPath{}) },
		"os.ReadFile": func(r *Run, a []Value) Value {
			c, ok := r.fs[r.concString(a[0])]
			if !ok {
				return Tuple{[]Value(nil), r.notExist(r.concString(a[0]))}
			}
			return Tuple{append([]Value(nil), strBytes(c)...), Iface{}}
		},
		"os.WriteFile": func(r *Run, a []Value) Value {
			r.fs[r.concString(a[0])] = mkStr(sl(a[1]))
			return Iface{}
		},
		"os.Open": func(r *Run, a []Value) Value {
			c, ok := r.fs[r.concString(a[0])]
			if !ok {
				return Tuple{(*Value)(nil), r.notExist(r.concString(a[0]))}
			}
			p := new(Value)
			*p = Struct{&Native{kind: "file", v: &vfile{data: strBytes(c)}}}
			return Tuple{p, Iface{}}
		},
		"os.Create": func(r *Run, a []Value) Value {
			r.fs[r.concString(a[0])] = ""
			p := new(Value)
			*p = Struct{&Native{kind: "file", v: &vfile{path: r.concString(a[0])}}}
			return Tuple{p, Iface{}}
		},
		"(*os.File).Write":       func(r *Run, a []Value) Value { return r.writeFile(a[0], sl(a[1])) },
		"(*os.File).WriteString": func(r *Run, a []Value) Value { return r.writeFile(a[0], strBytes(a[1])) },
		"(*os.File).Close":       func(r *Run, a []Value) Value { return Iface{} },
		"(*os.File).Read": func(r *Run, a []Value) Value {
			f := fileOf(a[0])
			buf := sl(a[1])
			if len(buf) == 0 {
				return Tuple{int64(0), Iface{}}
			}
			if f.pos >= len(f.data) {
				return Tuple{int64(0), *r.global(r.ex.prog.eofGlobal())}
			}
			n := copy(buf, f.data[f.pos:])
			f.pos += n
			return Tuple{int64(n), Iface{}}
		},
		"time.Now": func(r *Run, a []Value) Value {
			t := zero(r.ex.prog.funcs["time.Now"].Signature.Results().At(0).Type()).(Struct)
			t[1] = int64(63839000000) // always the same moment in 2024
			return t
		},
		"github.com/mattn/go-runewidth.CreateLUT": nop,
		"github.com/gdamore/tcell/v2.LookupTerminfo": func(r *Run, a []Value) Value {
			return Tuple{(*Value)(nil), r.mkError("no terminal")}
		},
		"unicode.IsDigit": func(r *Run, a []Value) Value {
			t, ok := a[0].(*Term)
			if !ok {
				return unicode.IsDigit(rune(a[0].(int64)))
			}
			res := r.tm.False
			add := func(lo, hi, stride uint64) {
				if stride > 1 && lo != hi {
					for x := lo; x <= hi; x += stride {
						res = r.tm.Or(res, r.tm.Eq(t, r.tm.BV(32, x)))
					}
					return
				}
				res = r.tm.Or(res, r.tm.And(r.tm.BVOp(OpUle, r.tm.BV(32, lo), t), r.tm.BVOp(OpUle, t, r.tm.BV(32, hi))))
			}
			for _, x := range unicode.Digit.R16 {
				add(uint64(x.Lo), uint64(x.Hi), uint64(x.Stride))
			}
			for _, x := range unicode.Digit.R32 {
				add(uint64(x.Lo), uint64(x.Hi), uint64(x.Stride))
			}
			return bval(res)
		},
		"runtime.GC":            nop,
		"runtime.KeepAlive":     nop,
		"internal/race.Acquire": nop,
		"os.Getenv":             ret(""),
		"os.LookupEnv":          ret(Tuple{"", false}),
	}
	for k, v := range yamlIntr {
		intr[k] = v
	}
	// one thread of control: atomic operations are ordinary ones
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intr["sync/atomic.Load"+ty] = func(r *Run, a []Value) Value { return *a[0].(*Value) }
		intr["sync/atomic.Store"+ty] = func(r *Run, a []Value) Value { *a[0].(*Value) = a[1]; return nil }
		intr["sync/atomic.Swap"+ty] = func(r *Run, a []Value) Value { p := a[0].(*Value); old := *p; *p = a[1]; return old }
		ti := map[string]tinfo{"Int32": {kInt, 32}, "Int64": {kInt, 64}, "Uint32": {kUint, 32}}[ty]
		if ti.w == 0 {
			ti = tinfo{kUint, 64}
		}
		intr["sync/atomic.Add"+ty] = func(r *Run, a []Value) Value {
			p := a[0].(*Value)
			*p = r.intBin(token.ADD, ti, *p, a[1], nil)
			return *p
		}
		intr["sync/atomic.CompareAndSwap"+ty] = func(r *Run, a []Value) Value {
			p := a[0].(*Value)
			if *p == a[1] {
				*p = a[2]
				return true
			}
			return false
		}
	}
}

type vfile struct {
	data []Value
	pos  int
	path string // written to
	std  string // Stdin, Stdout, Stderr
}

func fileOf(v Value) *vfile {
	p := v.(*Value)
	return (*p).(Struct)[0].(*Native).v.(*vfile)
}

func (p *Program) eofGlobal() *ssa.Global {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == "io" {
			return pk.Var("EOF")
		}
	}
	return nil
}

func sl(v Value) []Value { s, _ := v.([]Value); return s }

func ratOrSpecial(f float64) Value { return ratOf(f) }

func (r *Run) isTrue(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return r.Branch(x)
	}
	panic(unsupported{"isTrue"})
}

func (r *Run) concString(v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		return r.concStr(x)
	}
	panic(unsupported{"string expected"})
}

func (r *Run) fminmax(a, b Value, mx bool) Value {
	for _, x := range []Value{a, b} {
		if f, ok := x.(float64); ok && math.IsNaN(f) {
			return f
		}
	}
	lt := r.isTrue(r.fcmp("<", a, b))
	if lt == mx {
		return b
	}
	return a
}

func (r *Run) fround(v Value, mode string) Value {
	if f, ok := v.(float64); ok {
		return f
	}
	if x, ok := v.(*big.Rat); ok {
		return roundRat(x, mode)
	}
	t := v.(*Term)
	n := big.NewRat(r.TruncConc(t), 1)
	switch mode {
	case "trunc":
		return n
	case "floor":
		if r.isTrue(r.fcmp("<", v, n)) {
			return new(big.Rat).Sub(n, ratOne)
		}
		return n
	case "ceil":
		if r.isTrue(r.fcmp("<", n, v)) {
			return new(big.Rat).Add(n, ratOne)
		}
		return n
	}
	d := r.fbin("-", v, n)
	if r.isTrue(r.fcmp("<=", big.NewRat(1, 2), d)) {
		return new(big.Rat).Add(n, ratOne)
	}
	if r.isTrue(r.fcmp("<=", d, big.NewRat(-1, 2))) {
		return new(big.Rat).Sub(n, ratOne)
	}
	return n
}

func roundRat(x *big.Rat, mode string) *big.Rat {
	q := new(big.Int).Quo(x.Num(), x.Denom())
	n := new(big.Rat).SetInt(q)
	switch mode {
	case "floor":
		if x.Cmp(n) < 0 {
			n.Sub(n, ratOne)
		}
	case "ceil":
		if x.Cmp(n) > 0 {
			n.Add(n, ratOne)
		}
	case "round":
		d := new(big.Rat).Sub(x, n)
		if d.Cmp(big.NewRat(1, 2)) >= 0 {
			n.Add(n, ratOne)
		} else if d.Cmp(big.NewRat(-1, 2)) <= 0 {
			n.Sub(n, ratOne)
		}
	}
	return n
}

// ---- number tokens: texts stand for symbolic reals

const tokPrefix = "SYMREAL"

func (r *Run) token(t *Term) string {
	key := "t" + strconv.Itoa(t.id)
	if p := r.tm.Poly(t); p != nil {
		key = p.key()
	}
	i, ok := r.tokIdx[key]
	if !ok {
		i = len(r.tokens)
		r.tokens = append(r.tokens, t)
		r.tokIdx[key] = i
	}
	return fmt.Sprintf("%s%d", tokPrefix, i)
}

// intToken is the text of a symbolic integer, intTokenOf the integer a text stands for.
func (r *Run) intToken(t *Term) string {
	for i, x := range r.itokens {
		if x == t {
			return fmt.Sprintf("SYMINT%d", i)
		}
	}
	r.itokens = append(r.itokens, t)
	return fmt.Sprintf("SYMINT%d", len(r.itokens)-1)
}

func (r *Run) intTokenOf(s string) *Term {
	if strings.HasPrefix(s, "SYMINT") {
		if i, err := strconv.Atoi(s[6:]); err == nil && i < len(r.itokens) {
			return r.itokens[i]
		}
	}
	return nil
}

func (r *Run) tokenOf(s string) *Term {
	if strings.HasPrefix(s, tokPrefix) {
		if i, err := strconv.Atoi(s[len(tokPrefix):]); err == nil && i < len(r.tokens) {
			return r.tokens[i]
		}
	}
	return nil
}

func (r *Run) parseFloat(s string) Value {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return Tuple{ratOf(f), r.numError(err)}
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return Tuple{f, Iface{}}
	}
	if q, ok := new(big.Rat).SetString(s); ok {
		return Tuple{q, Iface{}} // exact decimal value
	}
	return Tuple{ratOf(f), Iface{}}
}

// ---- sorting and errors

func (r *Run) sortSlice(x, less Value, stable bool) {
	s := sl(x.(Iface).v)
	// insertion sort through the program's own less function
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !r.isTrue(r.callValue(less, []Value{int64(j), int64(j - 1)})) {
				break
			}
			a, b := copyVal(s[j]), copyVal(s[j-1])
			storeTo(&s[j], b)
			storeTo(&s[j-1], a)
		}
	}
}

var anyType types.Type = types.NewInterfaceType(nil, nil)
var anyMap types.Type = types.NewMap(anyType, anyType)

func (r *Run) syncMap(p Value) *MapV {
	key := fmt.Sprintf("syncmap%p", p.(*Value))
	m, _ := r.natives[key].(*MapV)
	if m == nil {
		m = newMap()
		r.natives[key] = m
	}
	return m
}

// errorChain visits an error and what it wraps until f says so.
func (r *Run) errorChain(e Iface, f func(e Iface) bool) bool {
	for e.t != nil {
		if f(e) {
			return true
		}
		n, ok := r.callMethod(e, "Unwrap")
		if !ok {
			return false
		}
		switch x := n.(type) {
		case Iface:
			e = x
		case []Value:
			for _, c := range x {
				if ci, ok := c.(Iface); ok && r.errorChain(ci, f) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (r *Run) errorsIs(e, target Iface) Value {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	return r.errorChain(e, func(e Iface) bool {
		if types.Identical(e.t, target.t) && r.isTrue(r.eq(errTypeAny, e, target)) {
			return true
		}
		is, ok := r.callMethod(e, "Is", target)
		return ok && r.isTrue(is)
	})
}

func (r *Run) errorsAs(e, target Iface) Value {
	pt, ok := target.t.(*types.Pointer)
	if !ok {
		r.rtPanic("errors: target must be a non-nil pointer")
	}
	p := target.v.(*Value)
	return r.errorChain(e, func(e Iface) bool {
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if types.Implements(e.t, it) {
				*p = e
				return true
			}
			return false
		}
		if types.Identical(e.t, pt.Elem()) {
			*p = copyVal(e.v)
			return true
		}
		return false
	})
}

var errTypeAny types.Type = types.Universe.Lookup("error").Type()

func (r *Run) stdout(v Value) {
	s, _ := r.aux["stdout"].([]Value)
	r.aux["stdout"] = append(s, strBytes(v)...)
}

func (r *Run) fprint(w Value, s Value) Value {
	i, ok := w.(Iface)
	if !ok || i.t == nil {
		r.nilDeref()
	}
	if strings.HasSuffix(i.t.String(), "os.File") {
		return r.writeFile(i.v, strBytes(s))
	}
	v, ok := r.callMethod(i, "Write", append([]Value(nil), strBytes(s)...))
	if !ok {
		panic(unsupported{"Fprint to " + i.t.String()})
	}
	return v
}

// writeFile appends to a virtual file or the standard output.
func (r *Run) writeFile(p Value, b []Value) Value {
	f := fileOf(p)
	switch {
	case f.std == "Stdout":
		r.stdout(mkStr(b))
	case f.path != "":
		old := strBytes(r.fs[f.path])
		r.fs[f.path] = mkStr(append(append([]Value(nil), old...), b...))
	}
	return Tuple{int64(len(b)), Iface{}}
}

func (r *Run) errorf(f Value, args []Value) Value {
	return r.mkError(r.sprintf(f, args))
}

// ---- formatting

func (r *Run) sprint(args []Value, ln bool) Value {
	var out []Value
	add := func(s Value) { out = append(out, strBytes(s)...) }
	for i, a := range args {
		if i > 0 {
			_, s1 := a.(Iface).v.(string)
			_, s0 := args[i-1].(Iface).v.(string)
			if ln || !s1 && !s0 {
				add(" ")
			}
		}
		add(r.fmtVal("v", "", -1, -1, a.(Iface)))
	}
	if ln {
		add("\n")
	}
	return mkStr(out)
}

func (r *Run) sprintf(f Value, args []Value) Value {
	fs, ok := f.(string)
	if !ok {
		panic(unsupported{"symbolic format"})
	}
	var out []Value
	add := func(s Value) { out = append(out, strBytes(s)...) }
	ai := 0
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			j := strings.IndexByte(fs[i:], '%')
			if j < 0 {
				add(fs[i:])
				break
			}
			add(fs[i : i+j])
			i += j
			continue
		}
		i++
		if i >= len(fs) {
			add("%!(NOVERB)")
			break
		}
		flags := ""
		for i < len(fs) && strings.IndexByte("+-# 0", fs[i]) >= 0 {
			flags += string(fs[i])
			i++
		}
		width, prec := -1, -1
		if i < len(fs) && fs[i] == '*' {
			if ai < len(args) {
				width = int(r.concInt(args[ai].(Iface).v))
				ai++
				if width < 0 {
					flags += "-"
					width = -width
				}
			}
			i++
		}
		for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
			if width < 0 {
				width = 0
			}
			width = width*10 + int(fs[i]-'0')
			i++
		}
		if i < len(fs) && fs[i] == '.' {
			i++
			prec = 0
			if i < len(fs) && fs[i] == '*' {
				prec = int(r.concInt(args[ai].(Iface).v))
				ai++
				i++
			}
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				prec = prec*10 + int(fs[i]-'0')
				i++
			}
		}
		c, w := utf8.DecodeRuneInString(fs[i:])
		verb := string(c)
		i += w
		if verb == "%" {
			add("%")
			continue
		}
		if ai >= len(args) {
			add("%!" + verb + "(MISSING)")
			continue
		}
		add(r.fmtVal(verb, flags, width, prec, args[ai].(Iface)))
		ai++
	}
	if ai < len(args) {
		add("%!(EXTRA)")
	}
	return mkStr(out)
}

func fmtSpec(verb, flags string, width, prec int) string {
	s := "%" + flags
	if width >= 0 {
		s += strconv.Itoa(width)
	}
	if prec >= 0 {
		s += "." + strconv.Itoa(prec)
	}
	return s + verb
}

func pad(b []Value, flags string, width int) []Value {
	n := 0
	for _, c := range b {
		if x, ok := c.(int64); ok && x&0xC0 == 0x80 {
			continue
		}
		n++
	}
	if width <= n {
		return b
	}
	sp := make([]Value, width-n)
	for i := range sp {
		sp[i] = int64(' ')
	}
	if strings.Contains(flags, "-") {
		return append(append([]Value(nil), b...), sp...)
	}
	return append(sp, b...)
}

func (r *Run) fmtVal(verb, flags string, width, prec int, a Iface) Value {
	if a.t == nil {
		return fmt.Sprintf(fmtSpec(verb, flags, width, prec), nil)
	}
	spec := fmtSpec(verb, flags, width, prec)
	if verb == "T" {
		return mkStr(pad(strBytes(a.t.String()), flags, width))
	}
	if verb == "v" || verb == "s" || verb == "q" || verb == "w" {
		if verb == "w" {
			verb = "v"
			spec = fmtSpec(verb, flags, width, prec)
		}
		if n, ok := a.v.(*Native); ok {
			return fmt.Sprintf(spec, n.kind)
		}
		if infoOf(a.t).k != kIface {
			for _, m := range []string{"Error", "String"} {
				if hasMethod(a.t, m) {
					if p, ok := a.v.(*Value); ok && p == nil {
						return "<nil>"
					}
					if s, ok := r.callMethod(a, m); ok {
						if str, ok := s.(string); ok {
							return fmt.Sprintf(spec, str)
						}
						return mkStr(pad(strBytes(s), flags, width))
					}
				}
			}
		}
	}
	return r.fmtRaw(verb, flags, width, prec, a.t, a.v)
}

func hasMethod(t types.Type, name string) bool {
	obj, _, _ := types.LookupFieldOrMethod(t, false, nil, name)
	f, ok := obj.(*types.Func)
	if !ok {
		return false
	}
	sg := f.Type().(*types.Signature)
	return sg.Params().Len() == 0 && sg.Results().Len() == 1 && infoOf(sg.Results().At(0).Type()).k == kString
}

func (r *Run) fmtRaw(verb, flags string, width, prec int, t types.Type, v Value) Value {
	spec := fmtSpec(verb, flags, width, prec)
	ti := infoOf(t)
	switch x := v.(type) {
	case string:
		return fmt.Sprintf(spec, x)
	case *SymStr:
		return mkStr(pad(x.b, flags, width))
	case bool:
		return fmt.Sprintf(spec, x)
	case int64:
		if ti.k == kUint {
			return fmt.Sprintf(spec, uint64(x))
		}
		if ti.w == 32 {
			return fmt.Sprintf(spec, int32(x))
		}
		return fmt.Sprintf(spec, x)
	case *big.Rat:
		f, _ := x.Float64()
		return fmt.Sprintf(spec, f)
	case float64:
		return fmt.Sprintf(spec, x)
	case *Term:
		switch x.sort {
		case SBool:
			return fmt.Sprintf(spec, r.Branch(x))
		case SBV:
			if verb == "c" {
				return r.convert(t, types.Typ[types.String], ti, tinfo{kString, 0}, x)
			}
			if r.inErrorf {
				// the digits in error messages are left open
				return fmt.Sprintf("SYMVAL%d", x.id)
			}
			return r.fmtRaw(verb, flags, width, prec, t, r.Concretize(x, ti))
		case SReal:
			return mkStr(r.fmtFloat(x, verb, width, prec, strings.Contains(flags, "-"), strings.Contains(flags, "+")))
		}
	case []Value:
		if ti.k == kSlice {
			et := t.Underlying().(*types.Slice).Elem()
			if verb == "s" && infoOf(et).w == 8 && infoOf(et).k == kUint {
				return mkStr(pad(x, flags, width))
			}
			return r.fmtList(verb, flags, width, prec, et, x)
		}
	case Array:
		return r.fmtList(verb, flags, width, prec, t.Underlying().(*types.Array).Elem(), x)
	case Iface:
		return r.fmtVal(verb, flags, width, prec, x)
	case Struct:
		st := t.Underlying().(*types.Struct)
		out := []Value{int64('{')}
		for i := range x {
			if i > 0 {
				out = append(out, int64(' '))
			}
			out = append(out, strBytes(r.fmtVal(verb, flags, width, prec, Iface{st.Field(i).Type(), x[i]}))...)
		}
		return mkStr(append(out, int64('}')))
	case *MapV:
		mt := t.Underlying().(*types.Map)
		type kv struct{ k, v Value }
		var es []kv
		if x != nil {
			for _, e := range x.ent {
				if !e.del {
					es = append(es, kv{e.k, e.v})
				}
			}
		}
		sort.SliceStable(es, func(i, j int) bool { return fmt.Sprint(es[i].k) < fmt.Sprint(es[j].k) })
		out := strBytes("map[")
		for i, e := range es {
			if i > 0 {
				out = append(out, int64(' '))
			}
			out = append(out, strBytes(r.fmtVal(verb, flags, width, prec, Iface{mt.Key(), e.k}))...)
			out = append(out, int64(':'))
			out = append(out, strBytes(r.fmtVal(verb, flags, width, prec, Iface{mt.Elem(), e.v}))...)
		}
		return mkStr(append(out, int64(']')))
	case *Value:
		if x == nil {
			return "<nil>"
		}
		if verb == "v" || verb == "s" {
			if s, ok := (*x).(Struct); ok {
				return mkStr(append([]Value{int64('&')}, strBytes(r.fmtRaw(verb, flags, width, prec, t.Underlying().(*types.Pointer).Elem(), s))...))
			}
		}
		return "0xc000000000"
	}
	panic(unsupported{fmt.Sprintf("format %s of %s", spec, t)})
}

func (r *Run) fmtList(verb, flags string, width, prec int, et types.Type, xs []Value) Value {
	out := []Value{int64('[')}
	for i := range xs {
		if i > 0 {
			out = append(out, int64(' '))
		}
		out = append(out, strBytes(r.fmtVal(verb, flags, width, prec, Iface{et, xs[i]}))...)
	}
	return mkStr(append(out, int64(']')))
}

type fmtGroup struct {
	t      *Term
	digits []Value
	prec   int
}

// digitAxioms adds that equal numbers have equal digits, for the numbers whose digits occur in an assertion.
func (r *Run) digitAxioms(t *Term) {
	if len(r.fmtGroups) < 2 {
		return
	}
	seen := map[int]bool{}
	var gs []int
	for _, v := range r.tm.Vars(t) {
		if g, ok := r.fmtOf[v.id]; ok && !seen[g] {
			seen[g] = true
			gs = append(gs, g)
		}
	}
	for i, a := range gs {
		for _, b := range gs[:i] {
			x, y := r.fmtGroups[a], r.fmtGroups[b]
			key := [2]int{max(a, b), min(a, b)}
			if x.prec != y.prec || len(x.digits) != len(y.digits) || r.fmtAx[key] {
				continue
			}
			r.fmtAx[key] = true
			eq := r.tm.RealCmp(OpEq, x.t, y.t)
			if eq.isConst() && !eq.b {
				continue
			}
			same := r.tm.True
			for k := range x.digits {
				same = r.tm.And(same, r.tm.Eq(x.digits[k].(*Term), y.digits[k].(*Term)))
			}
			r.addPC(r.tm.Or(r.tm.Not(eq), same))
		}
	}
}

// fmtFloat renders a symbolic real with fixed precision: the shape (sign, number of digits) is decided by forking,
// the digits are unknowns that are equal for equal values (congruence).
func (r *Run) fmtFloat(t *Term, verb string, width, prec int, minus, plus bool) []Value {
	if verb != "f" && verb != "F" || prec < 0 {
		if verb == "f" && prec < 0 {
			prec = 6
		} else {
			return pad(strBytes(r.token(t)), "", width)
		}
	}
	half := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Mul(big.NewInt(2), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec)), nil)))
	neg := r.Branch(r.tm.RealCmp(OpRLt, t, r.tm.Rat(ratZero)))
	abs := t
	if neg {
		abs = r.tm.ROp(OpRSub, r.tm.Rat(ratZero), t)
	}
	nd := 1
	for ; nd < 15; nd++ {
		lim := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(nd)), nil))
		lim.Sub(lim, half)
		if r.Branch(r.tm.RealCmp(OpRLt, abs, r.tm.Rat(lim))) {
			break
		}
	}
	key := fmt.Sprintf("%d|%d|%v|t%d", prec, nd, neg, t.id)
	if p := r.tm.Poly(t); p != nil {
		key = fmt.Sprintf("%d|%d|%v|%s", prec, nd, neg, p.key())
	}
	digits, ok := r.fmtVars[key]
	if !ok {
		for i := 0; i < nd+prec; i++ {
			v := r.tm.Var(fmt.Sprintf("dig!%d!%d", len(r.fmtVars), i), SBV, 8)
			r.setModel(v, uint64('0'))
			r.addPC(r.tm.And(r.tm.BVOp(OpUle, r.tm.BV(8, '0'), v), r.tm.BVOp(OpUle, v, r.tm.BV(8, '9'))))
			digits = append(digits, v)
		}
		gi := len(r.fmtGroups)
		r.fmtGroups = append(r.fmtGroups, fmtGroup{t, digits, prec})
		for _, d := range digits {
			r.fmtOf[d.(*Term).id] = gi
		}
		r.fmtVars[key] = digits
	}
	var out []Value
	if neg {
		out = append(out, int64('-'))
	} else if plus {
		out = append(out, int64('+'))
	}
	out = append(out, digits[:nd]...)
	if prec > 0 {
		out = append(out, int64('.'))
		out = append(out, digits[nd:]...)
	}
	fl := ""
	if minus {
		fl = "-"
	}
	return pad(out, fl, width)
}

func (r *Run) setModel(v *Term, x interface{}) {
	if r.model != nil {
		if _, ok := r.model[v.id]; !ok {
			r.model[v.id] = x
		}
	}
}

func (r *Run) nativeInvoke(n *Native, name string, args []Value) Value {
	switch n.kind {
	case "rtype":
		if name == "Elem" {
			return Iface{errTypeAny, n}
		}
	}
	panic(unsupported{"method " + name + " on native " + n.kind})
}

var tviewTag = regexp.MustCompile("(\\[[a-zA-Z0-9_,;: \\-\\.\"#]+\\[*)\\]")

// tviewEscape is the library's Escape (one regular expression) for a text without symbolic parts.
func tviewEscape(s string) string { return tviewTag.ReplaceAllString(s, "$1[]") }

func (r *Run) deepEq(t types.Type, a, b Value, depth int) bool {
	if depth > 100 {
		panic(unsupported{"DeepEqual of deep values"})
	}
	depth++
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := sl(a), sl(b)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !r.deepEq(u.Elem(), x[i], y[i], depth) {
				return false
			}
		}
		return true
	case *types.Array:
		x, y := a.(Array), b.(Array)
		for i := range x {
			if !r.deepEq(u.Elem(), x[i], y[i], depth) {
				return false
			}
		}
		return true
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		for i := range x {
			if !r.deepEq(u.Field(i).Type(), x[i], y[i], depth) {
				return false
			}
		}
		return true
	case *types.Pointer:
		x, y := a.(*Value), b.(*Value)
		if x == y || x == nil || y == nil {
			return x == y
		}
		return r.deepEq(u.Elem(), *x, *y, depth)
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && r.deepEq(x.t, x.v, y.v, depth)
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.sym || y.sym {
			panic(unsupported{"DeepEqual of maps with symbolic keys"})
		}
		if x.n != y.n {
			return false
		}
		for i := range x.ent {
			if x.ent[i].del {
				continue
			}
			h, _ := hashKey(x.ent[i].k)
			j, ok := y.idx[h]
			if !ok || !r.deepEq(u.Elem(), x.ent[i].v, y.ent[j].v, depth) {
				return false
			}
		}
		return true
	case *types.Basic:
		return r.isTrue(r.eq(t, a, b))
	}
	panic(unsupported{"DeepEqual of " + t.String()})
}
