package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"
)

// Value is a value of the interpreted program:
//
//	bool | *Term(Bool)            booleans
//	int64 | *Term(BV)             all integer kinds, normalised to their width
//	*big.Rat | float64 | *Term    floats as exact reals; float64 only for NaN and the infinities
//	string | *SymStr              strings
//	*Value                        pointers
//	Struct, Array, []Value        structs, arrays, slices
//	*MapV, Iface, *Closure, *ssa.Function, *ssa.Builtin, Tuple, *Native, *ChanV
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Native struct {
	kind string
	v    interface{}
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
}

// SymStr is a string with at least one symbolic byte.
type SymStr struct{ b []Value }

type unsupported struct{ msg string }
type pathAbort struct{ reason string }

// goPanic is a panic of the interpreted program.
type goPanic struct {
	v   Iface
	msg string
	pos string
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(int64); !ok {
			return &SymStr{append([]Value(nil), b...)}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(int64))
	}
	return string(bs)
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = int64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	}
	panic(unsupported{fmt.Sprintf("not a string: %T", v)})
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsupported{fmt.Sprintf("not a string: %T", v)})
}

// ---- type information

type tkind uint8

const (
	kOther tkind = iota
	kBool
	kInt
	kUint
	kFloat
	kComplex
	kString
	kPointer
	kStruct
	kArray
	kSlice
	kMap
	kIface
	kFunc
	kChan
	kUnsafe
	kTuple
)

type tinfo struct {
	k tkind
	w int
}

func infoOf(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{kBool, 0}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64}
		case types.Int8:
			return tinfo{kInt, 8}
		case types.Int16:
			return tinfo{kInt, 16}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kUint, 64}
		case types.Uint8:
			return tinfo{kUint, 8}
		case types.Uint16:
			return tinfo{kUint, 16}
		case types.Uint32:
			return tinfo{kUint, 32}
		case types.Float32:
			return tinfo{kFloat, 32}
		case types.Float64, types.UntypedFloat:
			return tinfo{kFloat, 64}
		case types.Complex64, types.Complex128:
			return tinfo{kComplex, 0}
		case types.String, types.UntypedString:
			return tinfo{kString, 0}
		case types.UnsafePointer:
			return tinfo{kUnsafe, 0}
		}
	case *types.Pointer:
		return tinfo{kPointer, 0}
	case *types.Struct:
		return tinfo{kStruct, 0}
	case *types.Array:
		return tinfo{kArray, 0}
	case *types.Slice:
		return tinfo{kSlice, 0}
	case *types.Map:
		return tinfo{kMap, 0}
	case *types.Interface:
		return tinfo{kIface, 0}
	case *types.Signature:
		return tinfo{kFunc, 0}
	case *types.Chan:
		return tinfo{kChan, 0}
	case *types.Tuple:
		return tinfo{kTuple, 0}
	}
	return tinfo{kOther, 0}
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch infoOf(t).k {
		case kBool:
			return false
		case kInt, kUint:
			return int64(0)
		case kFloat:
			return ratZero
		case kString:
			return ""
		case kUnsafe:
			return (*Value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, int(u.Len()))
		if len(a) > 0 {
			switch infoOf(u.Elem()).k {
			case kStruct, kArray:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				z := zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return nil
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	panic(unsupported{"zero value of " + t.String()})
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	}
	return v
}

// storeTo assigns v to the cell, keeping the addresses of fields and elements.
func storeTo(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
		return
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
		return
	}
	*p = v
}

// norm reduces an int64 to the representation of the type.
func norm(x int64, ti tinfo) int64 {
	if ti.w == 64 || ti.w == 0 {
		return x
	}
	if ti.k == kInt {
		return sx(uint64(x)&maskW(ti.w), ti.w)
	}
	return int64(uint64(x) & maskW(ti.w))
}

// ---- maps

type mapEntry struct {
	k, v Value
	del  bool
	sym  bool // the key is symbolic
}

type MapV struct {
	idx map[interface{}]int
	ent []mapEntry
	n   int
	sym bool // has had a symbolic key
}

func newMap() *MapV { return &MapV{idx: map[interface{}]int{}} }

// hashKey turns a concrete value into a comparable Go value; ok is false for symbolic content.
func hashKey(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case bool, int64, string, *Value, *MapV, *Native, *ChanV:
		return x, true
	case float64:
		return x, true
	case *big.Rat:
		return "rat:" + x.RatString(), true
	case Iface:
		if x.t == nil {
			return "nil-iface", true
		}
		k, ok := hashKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]interface{}{x.t.String(), k}, true
	case Struct:
		var sb strings.Builder
		for _, f := range x {
			k, ok := hashKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "struct:" + sb.String(), true
	case Array:
		var sb strings.Builder
		for _, f := range x {
			k, ok := hashKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "array:" + sb.String(), true
	}
	return nil, false
}

func (m *MapV) set(h interface{}, k, v Value) {
	if i, ok := m.idx[h]; ok {
		m.ent[i].v = copyVal(v)
		return
	}
	m.idx[h] = len(m.ent)
	m.ent = append(m.ent, mapEntry{k: k, v: copyVal(v)})
	m.n++
}

func (m *MapV) remove(i int) {
	e := &m.ent[i]
	if h, ok := hashKey(e.k); ok {
		delete(m.idx, h)
	}
	e.del = true
	e.v = nil
	m.n--
}

func (m *MapV) clear() {
	for i := range m.ent {
		m.ent[i].del = true
	}
	m.idx = map[interface{}]int{}
	m.n = 0
}

// ---- slice growth as in the Go runtime

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUpSize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(newLen, oldCap, elemSize int) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) / 4
		}
	}
	if elemSize == 0 {
		return newLen
	}
	return roundUpSize(newcap*elemSize) / elemSize
}

var stdSizes = types.SizesFor("gc", "amd64")

// ---- float helpers

func ratOf(f float64) Value {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return f
	}
	return new(big.Rat).SetFloat64(f)
}

func isSpecial(v Value) bool { _, ok := v.(float64); return ok }

func (r *Run) fterm(v Value) *Term {
	switch x := v.(type) {
	case *big.Rat:
		return r.tm.Rat(x)
	case *Term:
		return x
	}
	panic(unsupported{fmt.Sprintf("not a finite float: %T", v)})
}

func fval(t *Term) Value {
	if t.isConst() {
		return t.rat
	}
	return t
}

func (r *Run) fsign(v Value) int {
	switch x := v.(type) {
	case *big.Rat:
		return x.Sign()
	case float64:
		if math.IsInf(x, 1) {
			return 1
		}
		return -1
	case *Term:
		if r.Branch(r.tm.RealCmp(OpRLt, r.tm.Rat(ratZero), x)) {
			return 1
		}
		if r.Branch(r.tm.RealCmp(OpEq, x, r.tm.Rat(ratZero))) {
			return 0
		}
		return -1
	}
	panic(unsupported{"fsign"})
}

func infOf(sign int) float64 { return math.Inf(sign) }

func (r *Run) fbin(op string, a, b Value) Value {
	sa, sb := isSpecial(a), isSpecial(b)
	if sa || sb {
		if sa && math.IsNaN(a.(float64)) || sb && math.IsNaN(b.(float64)) {
			return math.NaN()
		}
		switch op {
		case "+", "-":
			if op == "-" {
				if sb {
					b = -b.(float64)
				}
			}
			if sa && sb {
				return a.(float64) + b.(float64)
			}
			if sa {
				return a
			}
			return b
		case "*":
			x, y := r.fsign(a), r.fsign(b)
			if x == 0 || y == 0 {
				return math.NaN()
			}
			return infOf(x * y)
		case "/":
			if sa && sb {
				return math.NaN()
			}
			if sb {
				return ratZero
			}
			y := r.fsign(b)
			x := r.fsign(a)
			if y == 0 {
				y = 1
			}
			return infOf(x * y)
		}
	}
	ra, ok1 := a.(*big.Rat)
	rb, ok2 := b.(*big.Rat)
	if ok1 && ok2 {
		n := new(big.Rat)
		switch op {
		case "+":
			return n.Add(ra, rb)
		case "-":
			return n.Sub(ra, rb)
		case "*":
			return n.Mul(ra, rb)
		case "/":
			if rb.Sign() == 0 {
				switch ra.Sign() {
				case 0:
					return math.NaN()
				default:
					return infOf(ra.Sign())
				}
			}
			return n.Quo(ra, rb)
		}
	}
	ta, tb := r.fterm(a), r.fterm(b)
	switch op {
	case "+":
		return fval(r.tm.ROp(OpRAdd, ta, tb))
	case "-":
		return fval(r.tm.ROp(OpRSub, ta, tb))
	case "*":
		return fval(r.tm.ROp(OpRMul, ta, tb))
	case "/":
		if r.Branch(r.tm.RealCmp(OpEq, tb, r.tm.Rat(ratZero))) {
			s := r.fsign(a)
			if s == 0 {
				return math.NaN()
			}
			return infOf(s)
		}
		inv, def := r.tm.Inv(tb)
		if def != nil {
			r.addPC(def)
		}
		return fval(r.tm.ROp(OpRMul, ta, inv))
	}
	panic(unsupported{"float op " + op})
}

// narrow32 rounds to float32: exactly for a constant, by the bound on the relative error for a symbolic value.
func (r *Run) narrow32(v Value) Value {
	switch x := v.(type) {
	case *big.Rat:
		return ratOf32(x)
	case *Term:
		tm := r.tm
		if y, ok := tm.narrow[x.id]; ok {
			return fval(y)
		}
		y := tm.Var(fmt.Sprintf("f32_%d", len(tm.narDef)), SReal, 0)
		tm.narrow[x.id], tm.narDef[y.id] = y, x
		e := big.NewRat(1, 1<<24)
		lo := tm.ROp(OpRMul, x, tm.Rat(new(big.Rat).Sub(ratOne, e)))
		hi := tm.ROp(OpRMul, x, tm.Rat(new(big.Rat).Add(ratOne, e)))
		pos := tm.ROp(OpRLe, tm.Rat(ratZero), x)
		up := tm.And(tm.ROp(OpRLe, lo, y), tm.ROp(OpRLe, y, hi))
		down := tm.And(tm.ROp(OpRLe, hi, y), tm.ROp(OpRLe, y, lo))
		r.addPC(tm.And(tm.Or(tm.Not(pos), up), tm.Or(pos, down)))
		return fval(y)
	}
	return v
}

func ratOf32(x *big.Rat) *big.Rat {
	f, exact := x.Float32()
	if exact || math.IsInf(float64(f), 0) {
		return x
	}
	return new(big.Rat).SetFloat64(float64(f))
}

// fcmp compares floats; op is one of < <= == (others are derived by the caller).
func (r *Run) fcmp(op string, a, b Value) Value {
	sa, sb := isSpecial(a), isSpecial(b)
	if sa || sb {
		if sa && math.IsNaN(a.(float64)) || sb && math.IsNaN(b.(float64)) {
			return false
		}
		x, y := 0.0, 0.0
		if sa {
			x = a.(float64)
		}
		if sb {
			y = b.(float64)
		}
		switch op {
		case "<":
			return x < y
		case "<=":
			return x <= y
		case "==":
			return x == y
		}
	}
	ra, ok1 := a.(*big.Rat)
	rb, ok2 := b.(*big.Rat)
	if ok1 && ok2 {
		c := ra.Cmp(rb)
		switch op {
		case "<":
			return c < 0
		case "<=":
			return c <= 0
		case "==":
			return c == 0
		}
	}
	ta, tb := r.fterm(a), r.fterm(b)
	switch op {
	case "<":
		return bval(r.tm.RealCmp(OpRLt, ta, tb))
	case "<=":
		return bval(r.tm.RealCmp(OpRLe, ta, tb))
	}
	return bval(r.tm.RealCmp(OpEq, ta, tb))
}

func bval(t *Term) Value {
	if t.isConst() {
		return t.b
	}
	return t
}

func (r *Run) bterm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return r.tm.Bool(x)
	case *Term:
		return x
	}
	panic(unsupported{fmt.Sprintf("not a bool: %T", v)})
}

func (r *Run) iterm(v Value, w int) *Term {
	switch x := v.(type) {
	case int64:
		return r.tm.BV(w, uint64(x))
	case *Term:
		return x
	}
	panic(unsupported{fmt.Sprintf("not an int: %T", v)})
}

func ival(t *Term, ti tinfo) Value {
	if t.isConst() {
		return norm(int64(t.bv), ti)
	}
	return t
}

func (r *Run) not(v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case *Term:
		return bval(r.tm.Not(x))
	}
	panic(unsupported{"not"})
}

func (r *Run) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return bval(r.tm.And(a.(*Term), b.(*Term)))
}

// eq compares two values of static type t.
func (r *Run) eq(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := infoOf(t)
		switch ti.k {
		case kBool:
			x, ok1 := a.(bool)
			y, ok2 := b.(bool)
			if ok1 && ok2 {
				return x == y
			}
			return bval(r.tm.Eq(r.bterm(a), r.bterm(b)))
		case kInt, kUint:
			x, ok1 := a.(int64)
			y, ok2 := b.(int64)
			if ok1 && ok2 {
				return x == y
			}
			return bval(r.tm.Eq(r.iterm(a, ti.w), r.iterm(b, ti.w)))
		case kFloat:
			return r.fcmp("==", a, b)
		case kString:
			return r.streq(a, b)
		case kUnsafe:
			return a == b
		}
	case *types.Pointer:
		return a.(*Value) == b.(*Value)
	case *types.Chan:
		return a.(*ChanV) == b.(*ChanV)
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		var res Value = true
		for i := range x {
			if u.Field(i).Name() == "_" {
				continue
			}
			res = r.and(res, r.eq(u.Field(i).Type(), x[i], y[i]))
			if res == false {
				return false
			}
		}
		return res
	case *types.Array:
		x, y := a.(Array), b.(Array)
		var res Value = true
		for i := range x {
			res = r.and(res, r.eq(u.Elem(), x[i], y[i]))
			if res == false {
				return false
			}
		}
		return res
	case *types.Interface:
		x, ok1 := a.(Iface)
		y, ok2 := b.(Iface)
		if !ok1 || !ok2 {
			panic(unsupported{fmt.Sprintf("interface compare %T %T", a, b)})
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		switch infoOf(x.t).k {
		case kSlice, kMap, kFunc:
			r.rtPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return r.eq(x.t, x.v, y.v)
	case *types.Slice:
		x, _ := a.([]Value)
		y, _ := b.([]Value)
		return x == nil && y == nil // only nil comparisons are legal
	case *types.Map:
		x, _ := a.(*MapV)
		y, _ := b.(*MapV)
		return x == nil && y == nil
	case *types.Signature:
		return isNilFunc(a) && isNilFunc(b)
	}
	panic(unsupported{"compare " + t.String()})
}

func isNilFunc(v Value) bool { return v == nil }

func (r *Run) streq(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	if strLen(a) != strLen(b) {
		return false
	}
	p, q := strBytes(a), strBytes(b)
	var res Value = true
	for i := range p {
		c, ok1 := p[i].(int64)
		d, ok2 := q[i].(int64)
		if ok1 && ok2 {
			if c != d {
				return false
			}
			continue
		}
		res = r.and(res, bval(r.tm.Eq(r.iterm(p[i], 8), r.iterm(q[i], 8))))
		if res == false {
			return false
		}
	}
	return res
}
