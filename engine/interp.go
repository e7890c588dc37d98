package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled form of SSA functions (operands resolved to registers)

type opnd struct {
	k   uint8 // 0 register, 1 constant, 2 global address, 3 zero aggregate
	reg int
	v   Value
	g   *ssa.Global
	t   types.Type
}

type cinstr struct {
	in   ssa.Instruction
	dst  int
	a    []opnd
	ti   tinfo
	ti2  tinfo
	t    types.Type
	comm bool
}

type cphi struct {
	dst   int
	edges []opnd
}

type cblock struct {
	b    *ssa.BasicBlock
	hit  atomic.Bool // some path entered it
	phis []cphi
	ins  []cinstr
}

type cfunc struct {
	fn       *ssa.Function
	name     string
	blocks   []*cblock
	nregs    int
	hasDefer bool
	intr     intrinsic
	har      bool
	repo     bool
}

type Closure struct {
	fn *ssa.Function
	fv []Value
}

// BoundNative is a function value implemented by the engine.
type BoundNative struct {
	f func(r *Run, args []Value) Value
}

type frame struct {
	r         *Run
	cf        *cfunc
	regs      []Value
	block     *cblock
	prev      int
	defers    []deferred
	result    Value
	panicking bool
	pan       goPanic
	caller    *frame
	pos       token.Pos
}

type deferred struct {
	fn   Value
	args []Value
}

type Program struct {
	prog       *ssa.Program
	cache      sync.Map // *ssa.Function -> *cfunc
	mcache     sync.Map // methKey -> *ssa.Function
	used       sync.Map // *ssa.Function of the repository executed
	repoPrefix string
	harPrefix  string
	mu         sync.Mutex
	funcs      map[string]*ssa.Function
}

type methKey struct {
	t types.Type
	m *types.Func
}

func constVal(c *ssa.Const) (Value, bool) {
	t := c.Type()
	if c.Value == nil {
		switch infoOf(t).k {
		case kStruct, kArray, kTuple:
			return nil, false
		}
		if _, ok := t.Underlying().(*types.TypeParam); ok {
			panic(unsupported{"type parameter constant"})
		}
		return zero(t), true
	}
	ti := infoOf(t)
	switch ti.k {
	case kBool:
		return constant.BoolVal(c.Value), true
	case kInt, kUint:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return norm(i, ti), true
		}
		u, _ := constant.Uint64Val(v)
		return int64(u), true
	case kFloat:
		v := constant.ToFloat(c.Value)
		// a constant stands for the number as written, not for its binary approximation
		if f, _ := constant.Float64Val(v); !math.IsInf(f, 0) && f != 0 {
			if q, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64)); ok {
				return q, true
			}
		}
		switch x := constant.Val(v).(type) {
		case *big.Rat:
			return x, true
		case *big.Float:
			r, _ := x.Rat(nil)
			if r == nil {
				f, _ := x.Float64()
				return f, true
			}
			return r, true
		case int64:
			return big.NewRat(x, 1), true
		case *big.Int:
			return new(big.Rat).SetInt(x), true
		}
	case kString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value), true
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i)), true
	case kIface:
	}
	panic(unsupported{"constant " + c.String()})
}

func (p *Program) compile(fn *ssa.Function) *cfunc {
	if c, ok := p.cache.Load(fn); ok {
		return c.(*cfunc)
	}
	cf := &cfunc{fn: fn, name: fn.String()}
	pk := fnPkg(fn)
	cf.har = strings.HasPrefix(pk, p.harPrefix)
	cf.repo = strings.HasPrefix(pk, p.repoPrefix) && !cf.har
	cf.intr = findIntrinsic(cf.name, fn)
	if cf.intr == nil && fn.Blocks != nil {
		p.compileBody(cf)
	}
	c, _ := p.cache.LoadOrStore(fn, cf)
	return c.(*cfunc)
}

func fnPkg(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Origin() != nil && f.Origin().Pkg != nil {
		return f.Origin().Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func (p *Program) compileBody(cf *cfunc) {
	fn := cf.fn
	regs := map[ssa.Value]int{}
	n := 0
	alloc := func(v ssa.Value) int {
		regs[v] = n
		n++
		return n - 1
	}
	for _, x := range fn.Params {
		alloc(x)
	}
	for _, x := range fn.FreeVars {
		alloc(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{k: 1}
		case *ssa.Const:
			cv, ok := constVal(x)
			if !ok {
				return opnd{k: 3, t: x.Type()}
			}
			return opnd{k: 1, v: cv}
		case *ssa.Global:
			return opnd{k: 2, g: x}
		case *ssa.Function:
			return opnd{k: 1, v: x}
		case *ssa.Builtin:
			return opnd{k: 1, v: x}
		}
		r, ok := regs[v]
		if !ok {
			panic(unsupported{"operand " + v.String()})
		}
		return opnd{k: 0, reg: r}
	}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				cp := cphi{dst: regs[ph]}
				for _, e := range ph.Edges {
					cp.edges = append(cp.edges, op(e))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
				ci.t = v.Type()
				ci.ti = infoOf(v.Type())
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.BinOp:
				ci.a = []opnd{op(x.X), op(x.Y)}
				ci.ti2 = infoOf(x.X.Type())
			case *ssa.UnOp:
				ci.a = []opnd{op(x.X)}
				ci.ti2 = infoOf(x.X.Type())
			case *ssa.Convert:
				ci.a = []opnd{op(x.X)}
				ci.ti2 = infoOf(x.X.Type())
			case *ssa.Call:
				ci.a = callOps(op, &x.Call)
			case *ssa.Defer:
				cf.hasDefer = true
				ci.a = callOps(op, &x.Call)
			case *ssa.Go:
				ci.a = callOps(op, &x.Call)
			case *ssa.Select:
				for _, s := range x.States {
					ci.a = append(ci.a, op(s.Chan), op(s.Send))
				}
			default:
				var rands []*ssa.Value
				rands = in.Operands(rands)
				for _, rp := range rands {
					ci.a = append(ci.a, op(*rp))
				}
			}
			cb.ins = append(cb.ins, ci)
		}
		cf.blocks = append(cf.blocks, cb)
	}
	cf.nregs = n
	if fn.Recover != nil {
		cf.hasDefer = true
	}
}

func callOps(op func(ssa.Value) opnd, c *ssa.CallCommon) []opnd {
	out := []opnd{op(c.Value)}
	for _, a := range c.Args {
		out = append(out, op(a))
	}
	return out
}

func (fr *frame) get(o *opnd) Value {
	switch o.k {
	case 0:
		return fr.regs[o.reg]
	case 1:
		return o.v
	case 2:
		return fr.r.global(o.g)
	}
	return zero(o.t)
}

// ---- globals

func (p *Program) perPath(pkg *ssa.Package) bool {
	path := pkg.Pkg.Path()
	return strings.HasPrefix(path, p.repoPrefix) || strings.Contains(path, "spf13")
}

func (r *Run) global(g *ssa.Global) *Value {
	gl, in := r.globals, r.inited
	per := r.ex.prog.perPath(g.Pkg)
	if strings.HasPrefix(g.Name(), "Verif") {
		in[g.Pkg] = 1 // the variables added to libraries have no initial value
	} else if !per {
		gl, in = r.w.globals, r.w.inited
	}
	if in[g.Pkg] == 0 {
		in[g.Pkg] = 1
		if per && r.pos == 0 && len(r.trace) == 0 {
		}
		r.initPackage(g.Pkg)
	}
	if p, ok := gl[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
	if g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdin" || g.Name() == "Stdout" || g.Name() == "Stderr") {
		f := new(Value)
		*f = Struct{&Native{kind: "file", v: &vfile{std: g.Name()}}}
		*p = f
	}
	gl[g] = p
	return p
}

func (r *Run) initPackage(pkg *ssa.Package) {
	init := pkg.Func("init")
	if init == nil {
		return
	}
	if noInit[pkg.Pkg.Path()] {
		return
	}
	saved := r.curFr
	r.call(init, nil, nil)
	r.curFr = saved
}

// packages whose variables are only used by functions replaced by intrinsics
var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/godebug": true, "internal/poll": true, "reflect": true, "time": true, "sync": true, "net": true, "internal/cpu": true, "crypto/rand": true}

// ---- calls

const maxDepth = 3000

func (r *Run) call(fn *ssa.Function, args []Value, fv []Value) Value {
	w := r.w
	cf := w.fcache[fn]
	if cf == nil {
		cf = r.ex.prog.compile(fn)
		w.fcache[fn] = cf
		if cf.repo {
			r.ex.prog.used.Store(fn, cf)
		}
	}
	if cf.intr != nil {
		return cf.intr(r, args)
	}
	if cf.blocks == nil {
		panic(unsupported{"no body: " + cf.name})
	}
	if r.depth > maxDepth {
		panic(unsupported{"call depth"})
	}
	r.depth++
	fr := &frame{r: r, cf: cf, regs: make([]Value, cf.nregs), caller: r.curFr, prev: -1}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], fv)
	fr.block = cf.blocks[0]
	r.curFr = fr
	if cf.hasDefer {
		fr.runWithDefers()
	} else {
		fr.exec()
	}
	r.curFr = fr.caller
	r.depth--
	return fr.result
}

func (fr *frame) runWithDefers() {
	r := fr.r
	depth := r.depth
	normal := false
	func() {
		defer func() {
			if normal {
				return
			}
			x := recover()
			gp, ok := x.(goPanic)
			if !ok {
				panic(x)
			}
			r.curFr = fr
			r.depth = depth
			fr.panicking = true
			fr.pan = gp
		}()
		fr.exec()
		normal = true
	}()
	if !fr.panicking {
		return
	}
	fr.runDefers()
	// recovered (runDefers re-panics otherwise)
	if fr.cf.fn.Recover != nil {
		fr.block = fr.cf.blocks[fr.cf.fn.Recover.Index]
		fr.prev = -1
		fr.exec()
	} else {
		fr.result = zero(fr.cf.fn.Signature.Results())
		if tp, ok := fr.result.(Tuple); ok {
			if len(tp) == 1 {
				fr.result = tp[0]
			}
		}
	}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			depth := fr.r.depth
			defer func() {
				if ok {
					return
				}
				x := recover()
				gp, is := x.(goPanic)
				if !is {
					panic(x)
				}
				fr.r.curFr = fr
				fr.r.depth = depth
				fr.panicking = true
				fr.pan = gp
			}()
			fr.r.deferOwner(fr, func() { fr.r.callValue(d.fn, d.args) })
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.pan)
	}
}

func (r *Run) deferOwner(fr *frame, f func()) {
	r.curFr = fr
	f()
	r.curFr = fr
}

func (r *Run) callValue(f Value, args []Value) Value {
	switch x := f.(type) {
	case *ssa.Function:
		return r.call(x, args, nil)
	case *Closure:
		return r.call(x.fn, args, x.fv)
	case *BoundNative:
		return x.f(r, args)
	case *ssa.Builtin:
		return r.builtin(x, args, nil)
	case nil:
		r.rtPanic("runtime error: invalid memory address or nil pointer dereference (nil function)")
	}
	panic(unsupported{fmt.Sprintf("call of %T", f)})
}

func (r *Run) posString() string {
	fr := r.curFr
	for fr != nil {
		if fr.pos.IsValid() && fr.cf.repo {
			p := r.ex.prog.prog.Fset.Position(fr.pos)
			f := p.Filename
			if i := strings.LastIndex(f, "/repo/"); i >= 0 {
				f = f[i+6:]
			}
			return fmt.Sprintf("%s (%s)", fr.cf.fn.RelString(nil), f)
		}
		fr = fr.caller
	}
	if r.curFr != nil {
		return r.curFr.cf.name
	}
	return "?"
}

func (r *Run) rtPanic(msg string) {
	if r.aux["trace"] != nil {
		for fr := r.curFr; fr != nil; fr = fr.caller {
			fmt.Println("   ", fr.cf.name, r.ex.prog.prog.Fset.Position(fr.pos))
		}
	}
	panic(goPanic{v: Iface{types.Typ[types.String], msg}, msg: msg, pos: r.posString()})
}

func (r *Run) nilDeref() {
	r.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (r *Run) method(t types.Type, m *types.Func) *ssa.Function {
	key := methKey{t, m}
	if f := r.w.mcache[key]; f != nil {
		return f
	}
	f := r.methodSlow(key, t, m)
	r.w.mcache[key] = f
	return f
}

func (r *Run) methodSlow(key methKey, t types.Type, m *types.Func) *ssa.Function {
	if f, ok := r.ex.prog.mcache.Load(key); ok {
		return f.(*ssa.Function)
	}
	r.ex.prog.mu.Lock()
	f := r.ex.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
	r.ex.prog.mu.Unlock()
	if f == nil {
		panic(unsupported{"no method " + m.Name() + " on " + t.String()})
	}
	r.ex.prog.mcache.Store(key, f)
	return f
}

// callMethod calls a method by name on an interface value; ok is false when there is none.
func (r *Run) callMethod(x Iface, name string, args ...Value) (Value, bool) {
	if x.t == nil {
		return nil, false
	}
	r.ex.prog.mu.Lock()
	ms := r.ex.prog.prog.MethodSets.MethodSet(x.t)
	sel := ms.Lookup(nil, name)
	r.ex.prog.mu.Unlock()
	if sel == nil {
		return nil, false
	}
	f := r.method(x.t, sel.Obj().(*types.Func))
	return r.call(f, append([]Value{x.v}, args...), nil), true
}

func (fr *frame) doCall(ci *cinstr, c *ssa.CallCommon) Value {
	r := fr.r
	fv := fr.get(&ci.a[0])
	if c.IsInvoke() {
		recv, ok := fv.(Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("invoke on %T", fv)})
		}
		if recv.t == nil {
			r.nilDeref()
		}
		if n, ok := recv.v.(*Native); ok {
			args := make([]Value, len(ci.a)-1)
			for i := range args {
				args[i] = fr.get(&ci.a[i+1])
			}
			return r.nativeInvoke(n, c.Method.Name(), args)
		}
		f := r.method(recv.t, c.Method)
		args := make([]Value, len(ci.a))
		args[0] = recv.v
		for i := 1; i < len(ci.a); i++ {
			args[i] = fr.get(&ci.a[i])
		}
		return r.call(f, args, nil)
	}
	args := make([]Value, len(ci.a)-1)
	for i := range args {
		args[i] = fr.get(&ci.a[i+1])
	}
	switch x := fv.(type) {
	case *ssa.Function:
		// cross-package initialisation is lazy
		if x.Name() == "init" && x.Synthetic == "package initializer" && fr.cf.fn.Name() == "init" {
			return nil
		}
		return r.call(x, args, nil)
	case *Closure:
		return r.call(x.fn, args, x.fv)
	case *ssa.Builtin:
		return r.builtin(x, args, c)
	}
	return r.callValue(fv, args)
}

// ---- the main loop

func (fr *frame) exec() {
	r := fr.r
	for {
		blk := fr.block
		if !blk.hit.Load() {
			blk.hit.Store(true)
		}
		if len(blk.phis) > 0 {
			pi := -1
			for i, p := range blk.b.Preds {
				if p.Index == fr.prev {
					pi = i
					break
				}
			}
			if len(blk.phis) == 1 {
				fr.regs[blk.phis[0].dst] = fr.get(&blk.phis[0].edges[pi])
			} else {
				tmp := make([]Value, len(blk.phis))
				for i := range blk.phis {
					tmp[i] = fr.get(&blk.phis[i].edges[pi])
				}
				for i := range blk.phis {
					fr.regs[blk.phis[i].dst] = tmp[i]
				}
			}
		}
		next := -1
		for i := range blk.ins {
			ci := &blk.ins[i]
			r.steps++
			switch x := ci.in.(type) {
			case *ssa.BinOp:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = r.binop(x.Op, x.X.Type(), ci.ti2, fr.get(&ci.a[0]), fr.get(&ci.a[1]), ci)
			case *ssa.UnOp:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.unop(x, ci)
			case *ssa.Call:
				fr.pos = x.Pos()
				v := fr.doCall(ci, &x.Call)
				r.curFr = fr
				fr.regs[ci.dst] = v
			case *ssa.Alloc:
				p := new(Value)
				*p = zero(x.Type().Underlying().(*types.Pointer).Elem())
				fr.regs[ci.dst] = p
			case *ssa.Store:
				p, ok := fr.get(&ci.a[0]).(*Value)
				if !ok {
					if sa, ok := fr.get(&ci.a[0]).(*SymAddr); ok {
						sa.store(r, fr.get(&ci.a[1]))
						break
					}
					panic(unsupported{"store to unsafe pointer"})
				}
				if p == nil {
					fr.pos = x.Pos()
					r.nilDeref()
				}
				storeTo(p, fr.get(&ci.a[1]))
			case *ssa.FieldAddr:
				p, ok := fr.get(&ci.a[0]).(*Value)
				if !ok {
					panic(unsupported{fmt.Sprintf("field address of %T", fr.get(&ci.a[0]))})
				}
				if p == nil {
					fr.pos = x.Pos()
					r.nilDeref()
				}
				s, ok := (*p).(Struct)
				if !ok {
					panic(unsupported{fmt.Sprintf("field %d of %T (%s)", x.Field, *p, x.X.Type())})
				}
				fr.regs[ci.dst] = &s[x.Field]
			case *ssa.Field:
				s, ok := fr.get(&ci.a[0]).(Struct)
				if !ok {
					panic(unsupported{"field of non-struct"})
				}
				fr.regs[ci.dst] = s[x.Field]
			case *ssa.IndexAddr:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.indexAddr(x, ci)
			case *ssa.Index:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.index(x, ci)
			case *ssa.Jump:
				next = blk.b.Succs[0].Index
			case *ssa.If:
				var b bool
				switch c := fr.get(&ci.a[0]).(type) {
				case bool:
					b = c
				case *Term:
					b = r.Branch(c)
				default:
					panic(unsupported{"if on non-bool"})
				}
				if b {
					next = blk.b.Succs[0].Index
				} else {
					next = blk.b.Succs[1].Index
				}
			case *ssa.Return:
				switch len(ci.a) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = fr.get(&ci.a[0])
				default:
					tp := make(Tuple, len(ci.a))
					for j := range ci.a {
						tp[j] = fr.get(&ci.a[j])
					}
					fr.result = tp
				}
				return
			case *ssa.Extract:
				fr.regs[ci.dst] = fr.get(&ci.a[0]).(Tuple)[x.Index]
			case *ssa.ChangeType:
				fr.regs[ci.dst] = fr.get(&ci.a[0])
			case *ssa.Convert:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = r.convert(x.X.Type(), x.Type(), ci.ti2, ci.ti, fr.get(&ci.a[0]))
			case *ssa.MultiConvert:
				fr.regs[ci.dst] = r.convert(x.X.Type(), x.Type(), infoOf(x.X.Type()), infoOf(x.Type()), fr.get(&ci.a[0]))
			case *ssa.ChangeInterface:
				fr.regs[ci.dst] = fr.get(&ci.a[0])
			case *ssa.MakeInterface:
				fr.regs[ci.dst] = Iface{x.X.Type(), fr.get(&ci.a[0])}
			case *ssa.MakeClosure:
				c := &Closure{fn: x.Fn.(*ssa.Function)}
				for j := 1; j < len(ci.a); j++ {
					c.fv = append(c.fv, fr.get(&ci.a[j]))
				}
				fr.regs[ci.dst] = c
			case *ssa.MakeSlice:
				fr.pos = x.Pos()
				n := r.concInt(fr.get(&ci.a[0]))
				c := r.concInt(fr.get(&ci.a[1]))
				if n < 0 || n > 1<<26 {
					r.rtPanic("runtime error: makeslice: len out of range")
				}
				if c < n || c > 1<<26 {
					r.rtPanic("runtime error: makeslice: cap out of range")
				}
				fr.regs[ci.dst] = makeSlice(x.Type().Underlying().(*types.Slice).Elem(), int(n), int(c))
			case *ssa.MakeMap:
				fr.regs[ci.dst] = newMap()
			case *ssa.MakeChan:
				n := r.concInt(fr.get(&ci.a[0]))
				fr.regs[ci.dst] = &ChanV{cap: int(n)}
			case *ssa.Slice:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.slice(x, ci)
			case *ssa.SliceToArrayPointer:
				s := fr.get(&ci.a[0]).([]Value)
				n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
				if len(s) < n {
					r.rtPanic("runtime error: cannot convert slice to array: length mismatch")
				}
				p := new(Value)
				*p = Array(s[:n:n])
				fr.regs[ci.dst] = p
			case *ssa.Lookup:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.lookup(x, ci)
			case *ssa.MapUpdate:
				fr.pos = x.Pos()
				m, _ := fr.get(&ci.a[0]).(*MapV)
				if m == nil {
					r.rtPanic("assignment to entry in nil map")
				}
				r.mapSet(m, fr.get(&ci.a[1]), fr.get(&ci.a[2]), x.Map.Type())
			case *ssa.Range:
				fr.regs[ci.dst] = fr.rangeIter(x, fr.get(&ci.a[0]))
			case *ssa.Next:
				fr.regs[ci.dst] = fr.next(x, fr.get(&ci.a[0]))
			case *ssa.TypeAssert:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.typeAssert(x, fr.get(&ci.a[0]))
			case *ssa.Panic:
				fr.pos = x.Pos()
				v, _ := fr.get(&ci.a[0]).(Iface)
				panic(goPanic{v: v, msg: r.panicText(v), pos: r.posString()})
			case *ssa.Defer:
				d := fr.deferOf(&x.Call, ci)
				fr.defers = append(fr.defers, d)
			case *ssa.RunDefers:
				fr.runDefers()
			case *ssa.Go:
				if strings.Contains(fr.cf.name, "tview") || strings.Contains(fr.cf.name, "tcell") {
					break // background helpers of the terminal library
				}
				// one schedule: the goroutine runs to its end before its creator goes on
				d := fr.deferOf(&x.Call, ci)
				r.inGo++
				r.callValue(d.fn, d.args)
				r.inGo--
			case *ssa.Send:
				c := fr.get(&ci.a[0]).(*ChanV)
				if c == nil || len(c.buf) >= c.cap && r.inGo == 0 {
					panic(unsupported{"blocking send"})
				}
				c.buf = append(c.buf, fr.get(&ci.a[1]))
			case *ssa.Select:
				panic(unsupported{"select"})
			default:
				panic(unsupported{fmt.Sprintf("instruction %T", ci.in)})
			}
		}
		if late.Load() {
			panic(timeUp{})
		}
		if r.steps > r.ex.maxSteps {
			panic(unsupported{"step limit"})
		}
		if next < 0 {
			return
		}
		fr.prev = blk.b.Index
		fr.block = fr.cf.blocks[next]
	}
}

// deferOf evaluates the function and arguments of a defer or go statement.
func (fr *frame) deferOf(call *ssa.CallCommon, ci *cinstr) deferred {
	r := fr.r
	d := deferred{}
	if call.IsInvoke() {
		recv := fr.get(&ci.a[0]).(Iface)
		if recv.t == nil {
			r.nilDeref()
		}
		if n, ok := recv.v.(*Native); ok {
			name := call.Method.Name()
			d.fn = &BoundNative{func(r *Run, a []Value) Value { return r.nativeInvoke(n, name, a) }}
		} else {
			d.fn = r.method(recv.t, call.Method)
			d.args = append(d.args, recv.v)
		}
	} else {
		d.fn = fr.get(&ci.a[0])
	}
	for j := 1; j < len(ci.a); j++ {
		d.args = append(d.args, fr.get(&ci.a[j]))
	}
	if b, ok := d.fn.(*ssa.Builtin); ok {
		args := d.args
		d.fn = &BoundNative{func(r *Run, a []Value) Value { return r.builtin(b, args, call) }}
	}
	return d
}

func (r *Run) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case string:
		return x
	case int64:
		return fmt.Sprint(x)
	}
	if types.Implements(v.t, errorIface) {
		if s, ok := r.callMethod(v, "Error"); ok {
			if str, ok := s.(string); ok {
				return str
			}
		}
	}
	return v.t.String()
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func makeSlice(et types.Type, n, c int) []Value {
	s := make([]Value, c)
	switch infoOf(et).k {
	case kStruct, kArray:
		for i := range s {
			s[i] = zero(et)
		}
	default:
		z := zero(et)
		for i := range s {
			s[i] = z
		}
	}
	return s[:n:c]
}

// concInt makes an int value concrete, forking over its feasible values.
func (r *Run) concInt(v Value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		return r.Concretize(x, tinfo{kInt, x.w})
	}
	panic(unsupported{fmt.Sprintf("int expected, got %T", v)})
}

// idx checks an index against a length, forking for symbolic ones.
func (r *Run) idx(v Value, n int) int {
	switch x := v.(type) {
	case int64:
		if x < 0 || x >= int64(n) {
			r.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", x, n))
		}
		return int(x)
	case *Term:
		in := r.tm.BVOp(OpUlt, x, r.tm.BV(x.w, uint64(n)))
		if x.w < 64 && maskW(x.w) < uint64(n) {
			in = r.tm.True
		}
		if !r.Branch(in) {
			r.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
		}
		return int(r.Concretize(x, tinfo{kUint, x.w}))
	}
	panic(unsupported{"index"})
}

func (fr *frame) indexAddr(x *ssa.IndexAddr, ci *cinstr) Value {
	base := fr.get(&ci.a[0])
	iv := fr.get(&ci.a[1])
	switch b := base.(type) {
	case []Value:
		if t, ok := iv.(*Term); ok {
			if v, ok := fr.r.selectRead(x, b, t); ok {
				return &v
			}
			if sa := fr.r.symAddr(x, b, t); sa != nil {
				return sa
			}
		}
		return &b[fr.r.idx(iv, len(b))]
	case *Value:
		if b == nil {
			fr.r.nilDeref()
		}
		a := (*b).(Array)
		if t, ok := iv.(*Term); ok {
			if v, ok := fr.r.selectRead(x, a, t); ok {
				return &v
			}
			if sa := fr.r.symAddr(x, a, t); sa != nil {
				return sa
			}
		}
		return &a[fr.r.idx(iv, len(a))]
	}
	panic(unsupported{fmt.Sprintf("index address of %T", base)})
}

// selectRead turns a read at a symbolic index into a conditional expression over the elements. Only for an address
// that is loaded by the very next instruction and nothing else.
func (r *Run) selectRead(x *ssa.IndexAddr, s []Value, i *Term) (Value, bool) {
	if len(s) == 0 || len(s) > 1100 {
		return nil, false
	}
	refs := x.Referrers()
	if refs == nil || len(*refs) != 1 {
		return nil, false
	}
	ld, ok := (*refs)[0].(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil, false
	}
	ins := x.Block().Instrs
	next := false
	for k := 0; k+1 < len(ins); k++ {
		if ins[k] == ssa.Instruction(x) {
			next = ins[k+1] == ssa.Instruction(ld)
			break
		}
	}
	if !next {
		return nil, false
	}
	terms := make([]*Term, len(s))
	k := infoOf(ld.Type())
	switch k.k {
	case kFloat:
		for j, v := range s {
			if isSpecial(v) {
				return nil, false
			}
			terms[j] = r.fterm(v)
		}
	case kInt, kUint:
		for j, v := range s {
			switch y := v.(type) {
			case *Term:
				terms[j] = y
			case int64:
				terms[j] = r.tm.BV(k.w, uint64(y))
			default:
				return nil, false
			}
		}
	default:
		return nil, false
	}
	in := r.tm.BVOp(OpUlt, i, r.tm.BV(i.w, uint64(len(s))))
	if i.w < 64 && maskW(i.w) < uint64(len(s)) {
		in = r.tm.True
	}
	if !r.Branch(in) {
		r.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", len(s)))
	}
	res := terms[len(s)-1]
	for j := len(s) - 2; j >= 0; j-- {
		res = r.tm.Ite(r.tm.Eq(i, r.tm.BV(i.w, uint64(j))), terms[j], res)
	}
	if k.k == kFloat {
		return fval(res), true
	}
	return ival(res, k), true
}

// SymAddr is the address of a number at a symbolic index. It is used where the address is only loaded from and stored to.
type SymAddr struct {
	s []Value
	i *Term
	k tinfo
}

func (r *Run) symAddr(x *ssa.IndexAddr, s []Value, i *Term) *SymAddr {
	if len(s) == 0 || len(s) > 64 {
		return nil
	}
	refs := x.Referrers()
	if refs == nil {
		return nil
	}
	for _, ref := range *refs {
		switch y := ref.(type) {
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return nil
			}
		case *ssa.Store:
			if y.Addr != ssa.Value(x) {
				return nil
			}
		default:
			return nil
		}
	}
	sa := &SymAddr{s: s, i: i, k: infoOf(x.Type().Underlying().(*types.Pointer).Elem())}
	for _, v := range s {
		if _, ok := sa.term(r, v); !ok {
			return nil
		}
	}
	in := r.tm.BVOp(OpUlt, i, r.tm.BV(i.w, uint64(len(s))))
	if i.w < 64 && maskW(i.w) < uint64(len(s)) {
		in = r.tm.True
	}
	if !r.Branch(in) {
		r.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", len(s)))
	}
	return sa
}

func (sa *SymAddr) term(r *Run, v Value) (*Term, bool) {
	switch sa.k.k {
	case kFloat:
		if isSpecial(v) {
			return nil, false
		}
		return r.fterm(v), true
	case kInt, kUint:
		switch y := v.(type) {
		case *Term:
			return y, true
		case int64:
			return r.tm.BV(sa.k.w, uint64(y)), true
		}
	}
	return nil, false
}

func (sa *SymAddr) val(t *Term) Value {
	if sa.k.k == kFloat {
		return fval(t)
	}
	return ival(t, sa.k)
}

func (sa *SymAddr) load(r *Run) Value {
	var res *Term
	for j := len(sa.s) - 1; j >= 0; j-- {
		t, ok := sa.term(r, sa.s[j])
		if !ok {
			panic(unsupported{"load at a symbolic index"})
		}
		if res == nil {
			res = t
		} else {
			res = r.tm.Ite(r.tm.Eq(sa.i, r.tm.BV(sa.i.w, uint64(j))), t, res)
		}
	}
	return sa.val(res)
}

func (sa *SymAddr) store(r *Run, v Value) {
	n, ok := sa.term(r, v)
	if !ok {
		panic(unsupported{"store at a symbolic index"})
	}
	for j := range sa.s {
		old, ok := sa.term(r, sa.s[j])
		if !ok {
			panic(unsupported{"store at a symbolic index"})
		}
		sa.s[j] = sa.val(r.tm.Ite(r.tm.Eq(sa.i, r.tm.BV(sa.i.w, uint64(j))), n, old))
	}
}

func (fr *frame) index(x *ssa.Index, ci *cinstr) Value {
	base := fr.get(&ci.a[0])
	iv := fr.get(&ci.a[1])
	switch b := base.(type) {
	case Array:
		return b[fr.r.idx(iv, len(b))]
	case string:
		return int64(b[fr.r.idx(iv, len(b))])
	case *SymStr:
		return b.b[fr.r.idx(iv, len(b.b))]
	}
	panic(unsupported{fmt.Sprintf("index of %T", base)})
}

func (fr *frame) slice(x *ssa.Slice, ci *cinstr) Value {
	// operand order: X, Low, High, Max (nil ones are constants with nil value)
	r := fr.r
	base := fr.get(&ci.a[0])
	j := 1
	get := func(v ssa.Value) (int64, bool) {
		if v == nil {
			return 0, false
		}
		o := ci.a[j]
		j++
		return r.concInt(fr.get(&o)), true
	}
	// Operands() includes nil entries for absent bounds
	vals := []ssa.Value{x.Low, x.High, x.Max}
	var b [3]int64
	var has [3]bool
	for i, v := range vals {
		if v == nil {
			if j < len(ci.a) {
				j++
			}
			continue
		}
		b[i], has[i] = get(v)
	}
	switch s := base.(type) {
	case string, *SymStr:
		n := int64(strLen(s))
		lo, hi := int64(0), n
		if has[0] {
			lo = b[0]
		}
		if has[1] {
			hi = b[1]
		}
		if lo < 0 || hi < lo || hi > n {
			r.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		if str, ok := s.(string); ok {
			return str[lo:hi]
		}
		return mkStr(s.(*SymStr).b[lo:hi])
	case []Value:
		return r.sliceOf(s, s == nil, b, has)
	case *Value:
		if s == nil {
			r.nilDeref()
		}
		a := []Value((*s).(Array))
		return r.sliceOf(a, false, b, has)
	}
	panic(unsupported{fmt.Sprintf("slice of %T", base)})
}

func (r *Run) sliceOf(s []Value, isNil bool, b [3]int64, has [3]bool) Value {
	lo, hi, mx := int64(0), int64(len(s)), int64(cap(s))
	if has[0] {
		lo = b[0]
	}
	if has[1] {
		hi = b[1]
	}
	if has[2] {
		mx = b[2]
	}
	if lo < 0 || hi < lo || mx < hi || mx > int64(cap(s)) {
		r.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s)))
	}
	if isNil {
		return []Value(nil)
	}
	return s[lo:hi:mx]
}

// slot gives the entry of a key, or -1. A symbolic key, or one that may equal a symbolic key of the map, is forked over
// the entries it may equal.
func (r *Run) slot(m *MapV, k Value, kt types.Type) int {
	if m == nil {
		return -1
	}
	h, conc := hashKey(k)
	if conc {
		if i, ok := m.idx[h]; ok {
			return i
		}
		if !m.sym {
			return -1
		}
	}
	for i := range m.ent {
		e := &m.ent[i]
		if e.del || conc && !e.sym {
			continue
		}
		switch c := r.eq(kt, e.k, k).(type) {
		case bool:
			if c {
				return i
			}
		case *Term:
			if r.Branch(c) {
				return i
			}
		}
	}
	return -1
}

func (r *Run) mapSet(m *MapV, k, v Value, mt types.Type) {
	kt := mt.Underlying().(*types.Map).Key()
	if i := r.slot(m, k, kt); i >= 0 {
		m.ent[i].v = copyVal(v)
		return
	}
	if s, ok := k.(*SymStr); ok {
		m.sym = true
		m.ent = append(m.ent, mapEntry{k: s, v: copyVal(v), sym: true})
		m.n++
		return
	}
	k = r.concKey(k, kt)
	h, ok := hashKey(k)
	if !ok {
		panic(unsupported{fmt.Sprintf("symbolic map key %T", k)})
	}
	m.set(h, k, v)
}

func (r *Run) concKey(k Value, kt types.Type) Value {
	switch x := k.(type) {
	case *Term:
		if x.sort == SBV {
			return r.Concretize(x, infoOf(kt))
		}
		if x.sort == SBool {
			return r.Branch(x)
		}
	case *SymStr:
		return r.concStr(x)
	case Struct:
		st := kt.Underlying().(*types.Struct)
		n := make(Struct, len(x))
		for i := range x {
			if _, ok := hashKey(x[i]); ok {
				n[i] = x[i]
			} else {
				n[i] = r.concKey(x[i], st.Field(i).Type())
			}
		}
		return n
	}
	return k
}

func (r *Run) concStr(x *SymStr) string {
	bs := make([]byte, len(x.b))
	for i, c := range x.b {
		switch y := c.(type) {
		case int64:
			bs[i] = byte(y)
		case *Term:
			bs[i] = byte(r.Concretize(y, tinfo{kUint, 8}))
		}
	}
	return string(bs)
}

func (fr *frame) lookup(x *ssa.Lookup, ci *cinstr) Value {
	r := fr.r
	base := fr.get(&ci.a[0])
	if s, ok := base.(string); ok {
		return int64(s[r.idx(fr.get(&ci.a[1]), len(s))])
	}
	if s, ok := base.(*SymStr); ok {
		return s.b[r.idx(fr.get(&ci.a[1]), len(s.b))]
	}
	m, _ := base.(*MapV)
	mt := x.X.Type().Underlying().(*types.Map)
	key := fr.get(&ci.a[1])
	var v Value
	found := false
	if i := r.slot(m, key, mt.Key()); i >= 0 {
		v, found = m.ent[i].v, true
	}
	if !found {
		v = zero(mt.Elem())
	} else {
		v = copyVal(v)
	}
	if x.CommaOk {
		return Tuple{v, found}
	}
	return v
}

// ---- iteration

type mapIter struct {
	m    *MapV
	keys []int // entries
	pos  int
}

type strIter struct {
	s   Value
	pos int
}

func (fr *frame) rangeIter(x *ssa.Range, v Value) Value {
	r := fr.r
	switch s := v.(type) {
	case string, *SymStr:
		return &strIter{s: s}
	case *MapV:
		it := &mapIter{m: s}
		if s != nil {
			for i := range s.ent {
				if !s.ent[i].del {
					it.keys = append(it.keys, i)
				}
			}
		}
		if n := len(it.keys); n > 1 && r.mapBud > 0 && fr.cf.repo {
			k := numOrders(n)
			c := r.Choose(k)
			if c > 0 {
				r.mapBud--
				r.orders = true
				it.keys = permute(it.keys, c)
			}
		}
		return it
	}
	panic(unsupported{fmt.Sprintf("range over %T", v)})
}

var perms3 = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

func numOrders(n int) int {
	switch n {
	case 2:
		return 2
	case 3:
		return 6
	}
	return n + 1
}

func permute(k []int, c int) []int {
	n := len(k)
	out := make([]int, n)
	switch {
	case n == 2:
		out[0], out[1] = k[1], k[0]
	case n == 3:
		for i, j := range perms3[c] {
			out[i] = k[j]
		}
	case c == n:
		for i := range k {
			out[i] = k[n-1-i]
		}
	default:
		for i := range k {
			out[i] = k[(i+c)%n]
		}
	}
	return out
}

func (fr *frame) next(x *ssa.Next, it Value) Value {
	r := fr.r
	switch i := it.(type) {
	case *mapIter:
		for i.pos < len(i.keys) {
			e := &i.m.ent[i.keys[i.pos]]
			i.pos++
			if !e.del {
				return Tuple{true, e.k, copyVal(e.v)}
			}
		}
		tp := x.Type().(*types.Tuple)
		zk, zv := Value(nil), Value(nil)
		if t := tp.At(1).Type(); infoOf(t).k != kOther {
			zk = zero(t)
		}
		if t := tp.At(2).Type(); infoOf(t).k != kOther {
			zv = zero(t)
		}
		return Tuple{false, zk, zv}
	case *strIter:
		n := strLen(i.s)
		if i.pos >= n {
			return Tuple{false, int64(0), int64(0)}
		}
		p := i.pos
		rv, w := r.decodeRune(i.s, p)
		i.pos += w
		return Tuple{true, int64(p), rv}
	}
	panic(unsupported{"next"})
}

func (r *Run) decodeRune(s Value, p int) (Value, int) {
	switch x := s.(type) {
	case string:
		c, w := utf8.DecodeRuneInString(x[p:])
		return int64(c), w
	case *SymStr:
		switch b := x.b[p].(type) {
		case int64:
			if b < 0x80 {
				return b, 1
			}
			// concrete multi-byte sequence
			var bs []byte
			for q := p; q < len(x.b) && q < p+4; q++ {
				c, ok := x.b[q].(int64)
				if !ok {
					break
				}
				bs = append(bs, byte(c))
			}
			c, w := utf8.DecodeRune(bs)
			return int64(c), w
		case *Term:
			if r.Branch(r.tm.BVOp(OpUlt, b, r.tm.BV(8, 0x80))) {
				return ival(r.tm.Resize(b, 32, false), tinfo{kInt, 32}), 1
			}
			panic(unsupported{"symbolic non-ASCII byte"})
		}
	}
	panic(unsupported{"decode rune"})
}

func (fr *frame) typeAssert(x *ssa.TypeAssert, v Value) Value {
	r := fr.r
	i, ok := v.(Iface)
	if !ok {
		panic(unsupported{fmt.Sprintf("type assert on %T", v)})
	}
	hit := false
	var res Value
	if i.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			if _, nat := i.v.(*Native); nat {
				hit = true
			} else {
				hit = types.Implements(i.t, it)
			}
			res = i
		} else {
			hit = types.Identical(i.t, x.AssertedType)
			res = copyVal(i.v)
		}
	}
	if !hit {
		res = zero(x.AssertedType)
		if !x.CommaOk {
			r.rtPanic("interface conversion: wrong dynamic type for " + x.AssertedType.String())
		}
	}
	if x.CommaOk {
		return Tuple{res, hit}
	}
	return res
}

// ---- operators

func (fr *frame) unop(x *ssa.UnOp, ci *cinstr) Value {
	r := fr.r
	v := fr.get(&ci.a[0])
	switch x.Op {
	case token.MUL:
		p, ok := v.(*Value)
		if !ok {
			if sa, ok := v.(*SymAddr); ok {
				return sa.load(r)
			}
			panic(unsupported{fmt.Sprintf("load from %T", v)})
		}
		if p == nil {
			r.nilDeref()
		}
		return copyVal(*p)
	case token.NOT:
		return r.not(v)
	case token.SUB:
		switch ci.ti.k {
		case kInt, kUint:
			if i, ok := v.(int64); ok {
				return norm(-i, ci.ti)
			}
			return ival(r.tm.BVUn(OpNeg, v.(*Term)), ci.ti)
		case kFloat:
			if f, ok := v.(float64); ok {
				return -f
			}
			return r.fbin("-", ratZero, v)
		}
	case token.XOR:
		if i, ok := v.(int64); ok {
			return norm(^i, ci.ti)
		}
		return ival(r.tm.BVUn(OpBNot, v.(*Term)), ci.ti)
	case token.ARROW:
		c := v.(*ChanV)
		if c != nil && len(c.buf) == 0 && c.closed {
			e := zero(x.X.Type().Underlying().(*types.Chan).Elem())
			if x.CommaOk {
				return Tuple{e, false}
			}
			return e
		}
		if c == nil || len(c.buf) == 0 {
			panic(unsupported{"blocking receive"})
		}
		e := c.buf[0]
		c.buf = c.buf[1:]
		if x.CommaOk {
			return Tuple{e, true}
		}
		return e
	}
	panic(unsupported{"unop " + x.Op.String()})
}

func (r *Run) binop(op token.Token, xt types.Type, ti tinfo, a, b Value, ci *cinstr) Value {
	switch op {
	case token.EQL:
		if ti.k == kInt || ti.k == kUint {
			x, ok1 := a.(int64)
			y, ok2 := b.(int64)
			if ok1 && ok2 {
				return x == y
			}
		}
		return r.eq(xt, a, b)
	case token.NEQ:
		if ti.k == kFloat {
			return r.not(r.fcmp("==", a, b))
		}
		return r.not(r.eq(xt, a, b))
	}
	switch ti.k {
	case kInt, kUint:
		return r.intBin(op, ti, a, b, ci)
	case kFloat:
		switch op {
		case token.ADD:
			return r.fwidth(ti, r.fbin("+", a, b))
		case token.SUB:
			return r.fwidth(ti, r.fbin("-", a, b))
		case token.MUL:
			return r.fwidth(ti, r.fbin("*", a, b))
		case token.QUO:
			return r.fwidth(ti, r.fbin("/", a, b))
		case token.LSS:
			return r.fcmp("<", a, b)
		case token.LEQ:
			return r.fcmp("<=", a, b)
		case token.GTR:
			return r.fcmp("<", b, a)
		case token.GEQ:
			return r.fcmp("<=", b, a)
		}
	case kString:
		switch op {
		case token.ADD:
			x, ok1 := a.(string)
			y, ok2 := b.(string)
			if ok1 && ok2 {
				return x + y
			}
			return mkStr(append(append([]Value(nil), strBytes(a)...), strBytes(b)...))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			x, ok1 := a.(string)
			y, ok2 := b.(string)
			if !ok1 || !ok2 {
				switch op {
				case token.LSS:
					return r.strLess(a, b)
				case token.GTR:
					return r.strLess(b, a)
				case token.LEQ:
					return r.not(r.strLess(b, a))
				}
				return r.not(r.strLess(a, b))
			}
			switch op {
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			}
			return x >= y
		}
	case kBool:
		switch op {
		case token.AND, token.LAND:
			return r.and(a, b)
		case token.OR, token.LOR:
			return r.not(r.and(r.not(a), r.not(b)))
		}
	}
	panic(unsupported{"binop " + op.String() + " on " + xt.String()})
}

// strLess is the lexicographic order of two strings with symbolic bytes.
func (r *Run) strLess(a, b Value) Value {
	x, y := strBytes(a), strBytes(b)
	bt := tinfo{k: kUint, w: 8}
	var res Value = len(x) < len(y)
	for i := min(len(x), len(y)) - 1; i >= 0; i-- {
		lt := r.intBin(token.LSS, bt, x[i], y[i], nil)
		eq := r.eqInt8(x[i], y[i])
		res = r.not(r.and(r.not(lt), r.not(r.and(eq, res))))
	}
	return res
}

func (r *Run) strCompare(a, b Value) Value {
	if r.isTrue(r.strLess(a, b)) {
		return int64(-1)
	}
	if r.isTrue(r.streq(a, b)) {
		return int64(0)
	}
	return int64(1)
}

func (r *Run) eqInt8(a, b Value) Value {
	return r.eq(types.Typ[types.Uint8], a, b)
}

func (r *Run) intBin(op token.Token, ti tinfo, a, b Value, ci *cinstr) Value {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	signed := ti.k == kInt
	if op == token.SHL || op == token.SHR {
		// the shift count has its own type
		yt := ti
		if ci != nil {
			if bo, ok := ci.in.(*ssa.BinOp); ok {
				yt = infoOf(bo.Y.Type())
			}
		}
		if !ok2 {
			bt := b.(*Term)
			if yt.k == kInt && r.Branch(r.tm.BVOp(OpSlt, bt, r.tm.BV(yt.w, 0))) {
				r.rtPanic("runtime error: negative shift amount")
			}
			if yt.w > ti.w {
				bt = r.tm.Ite(r.tm.BVOp(OpUle, r.tm.BV(yt.w, uint64(ti.w)), bt), r.tm.BV(yt.w, uint64(ti.w)), bt)
			}
			bt = r.tm.Resize(bt, ti.w, false)
			at, isT := a.(*Term)
			if !isT {
				at = r.tm.BV(ti.w, uint64(x))
			}
			o := OpShl
			if op == token.SHR {
				o = OpLshr
				if signed {
					o = OpAshr
				}
			}
			return ival(r.tm.BVOp(o, at, bt), ti)
		}
		if yt.k == kInt && y < 0 {
			r.rtPanic("runtime error: negative shift amount")
		}
		uy := uint64(y)
		if !ok1 {
			t := a.(*Term)
			o := OpShl
			if op == token.SHR {
				o = OpLshr
				if signed {
					o = OpAshr
				}
			}
			if uy > 127 {
				uy = 127
			}
			if ti.w < 8 {
				uy = uy & 127
			}
			return ival(r.tm.BVOp(o, t, r.tm.BV(ti.w, uy)), ti)
		}
		if op == token.SHL {
			if uy >= 64 {
				return int64(0)
			}
			return norm(x<<uy, ti)
		}
		if signed {
			if uy >= 64 {
				uy = 63
			}
			return x >> uy
		}
		if uy >= 64 {
			return int64(0)
		}
		return int64(uint64(x) >> uy)
	}
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return norm(x+y, ti)
		case token.SUB:
			return norm(x-y, ti)
		case token.MUL:
			return norm(x*y, ti)
		case token.QUO, token.REM:
			if y == 0 {
				r.rtPanic("runtime error: integer divide by zero")
			}
			if signed {
				if y == -1 {
					if op == token.QUO {
						return norm(-x, ti)
					}
					return int64(0)
				}
				if op == token.QUO {
					return norm(x/y, ti)
				}
				return norm(x%y, ti)
			}
			if op == token.QUO {
				return int64(uint64(x) / uint64(y))
			}
			return int64(uint64(x) % uint64(y))
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return norm(x^y, ti)
		case token.AND_NOT:
			return norm(x&^y, ti)
		case token.LSS:
			if signed {
				return x < y
			}
			return uint64(x) < uint64(y)
		case token.LEQ:
			if signed {
				return x <= y
			}
			return uint64(x) <= uint64(y)
		case token.GTR:
			if signed {
				return x > y
			}
			return uint64(x) > uint64(y)
		case token.GEQ:
			if signed {
				return x >= y
			}
			return uint64(x) >= uint64(y)
		}
	}
	ta, tb := r.iterm(a, ti.w), r.iterm(b, ti.w)
	tm := r.tm
	pick := func(s, u Op) Op {
		if signed {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return ival(tm.BVOp(OpAdd, ta, tb), ti)
	case token.SUB:
		return ival(tm.BVOp(OpSub, ta, tb), ti)
	case token.MUL:
		return ival(tm.BVOp(OpMul, ta, tb), ti)
	case token.QUO, token.REM:
		if r.Branch(tm.Eq(tb, tm.BV(ti.w, 0))) {
			r.rtPanic("runtime error: integer divide by zero")
		}
		if op == token.QUO {
			return ival(tm.BVOp(pick(OpSDiv, OpUDiv), ta, tb), ti)
		}
		return ival(tm.BVOp(pick(OpSRem, OpURem), ta, tb), ti)
	case token.AND:
		return ival(tm.BVOp(OpBAnd, ta, tb), ti)
	case token.OR:
		return ival(tm.BVOp(OpBOr, ta, tb), ti)
	case token.XOR:
		return ival(tm.BVOp(OpBXor, ta, tb), ti)
	case token.AND_NOT:
		return ival(tm.BVOp(OpBAnd, ta, tm.BVUn(OpBNot, tb)), ti)
	case token.LSS:
		return bval(tm.BVOp(pick(OpSlt, OpUlt), ta, tb))
	case token.LEQ:
		return bval(tm.BVOp(pick(OpSle, OpUle), ta, tb))
	case token.GTR:
		return bval(tm.BVOp(pick(OpSlt, OpUlt), tb, ta))
	case token.GEQ:
		return bval(tm.BVOp(pick(OpSle, OpUle), tb, ta))
	}
	panic(unsupported{"int op " + op.String()})
}

func (r *Run) convert(from, to types.Type, fi, ti tinfo, v Value) Value {
	switch {
	case (fi.k == kInt || fi.k == kUint) && (ti.k == kInt || ti.k == kUint):
		if x, ok := v.(int64); ok {
			return norm(x, ti)
		}
		return ival(r.tm.Resize(v.(*Term), ti.w, fi.k == kInt), ti)
	case (fi.k == kInt || fi.k == kUint) && ti.k == kFloat:
		x, ok := v.(int64)
		if !ok {
			x = r.Concretize(v.(*Term), fi)
		}
		if fi.k == kUint && x < 0 {
			return new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(x)))
		}
		return r.fwidth(ti, big.NewRat(x, 1))
	case fi.k == kFloat && ti.k == kFloat:
		if ti.w == 32 && fi.w == 64 {
			return r.narrow32(v)
		}
		return v
	case fi.k == kFloat && (ti.k == kInt || ti.k == kUint):
		switch x := v.(type) {
		case *big.Rat:
			i := new(big.Int).Quo(x.Num(), x.Denom())
			if !i.IsInt64() {
				return norm(math.MinInt64, ti)
			}
			return norm(i.Int64(), ti)
		case float64:
			return norm(math.MinInt64, ti)
		case *Term:
			return norm(r.TruncConc(x), ti)
		}
	case fi.k == kString && ti.k == kString:
		return v
	case ti.k == kString && (fi.k == kInt || fi.k == kUint):
		x, ok := v.(int64)
		if !ok {
			t := v.(*Term)
			if r.Branch(r.tm.BVOp(OpUlt, t, r.tm.BV(t.w, 0x80))) {
				return mkStr([]Value{ival(r.tm.Resize(t, 8, false), tinfo{kUint, 8})})
			}
			x = r.Concretize(t, fi)
		}
		if fi.w == 64 && (x < 0 || x > 0x10ffff) {
			x = 0xfffd
		}
		return string(rune(x))
	case fi.k == kString && ti.k == kSlice:
		et := infoOf(to.Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			b := strBytes(v)
			return append(make([]Value, 0, len(b)), b...)
		}
		var out []Value = make([]Value, 0, strLen(v))
		for p := 0; p < strLen(v); {
			c, w := r.decodeRune(v, p)
			out = append(out, c)
			p += w
		}
		return out[:len(out):len(out)]
	case ti.k == kString && fi.k == kSlice:
		s, _ := v.([]Value)
		et := infoOf(from.Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			return mkStr(s)
		}
		var out []Value
		for _, c := range s {
			switch x := c.(type) {
			case int64:
				for _, b := range []byte(string(rune(x))) {
					out = append(out, int64(b))
				}
			case *Term:
				if r.Branch(r.tm.BVOp(OpUlt, x, r.tm.BV(x.w, 0x80))) {
					out = append(out, ival(r.tm.Resize(x, 8, false), tinfo{kUint, 8}))
				} else {
					y := r.Concretize(x, tinfo{kInt, 32})
					for _, b := range []byte(string(rune(y))) {
						out = append(out, int64(b))
					}
				}
			}
		}
		return mkStr(out)
	case fi.k == ti.k:
		return v
	case ti.k == kUnsafe || fi.k == kUnsafe:
		return v
	}
	panic(unsupported{"convert " + from.String() + " to " + to.String()})
}

// ---- builtins

func (r *Run) builtin(b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		dst, _ := args[0].([]Value)
		var src []Value
		switch s := args[1].(type) {
		case []Value:
			src = s
		case string, *SymStr:
			src = strBytes(s)
		}
		var et types.Type
		if c != nil {
			et = c.Args[0].Type().Underlying().(*types.Slice).Elem()
		} else {
			et = types.Typ[types.Int]
		}
		return appendVals(dst, src, et)
	case "copy":
		dst, _ := args[0].([]Value)
		var src []Value
		switch s := args[1].(type) {
		case []Value:
			src = s
		case string, *SymStr:
			src = strBytes(s)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeTo(&dst[i], tmp[i])
		}
		return int64(n)
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return int64(strLen(x))
		case []Value:
			return int64(len(x))
		case Array:
			return int64(len(x))
		case *MapV:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case *Value:
			if x == nil {
				// pointer to array: type gives the length
				if c != nil {
					if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
						return pt.Elem().Underlying().(*types.Array).Len()
					}
				}
			}
			return int64(len((*x).(Array)))
		case *ChanV:
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		case *ChanV:
			return int64(x.cap)
		}
	case "delete":
		m, _ := args[0].(*MapV)
		if m == nil {
			return nil
		}
		if c == nil {
			panic(unsupported{"deferred delete"})
		}
		if i := r.slot(m, args[1], c.Args[0].Type().Underlying().(*types.Map).Key()); i >= 0 {
			m.remove(i)
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				x.clear()
			}
		case []Value:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				storeTo(&x[i], zero(et))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		v, _ := args[0].(Iface)
		panic(goPanic{v: v, msg: r.panicText(v), pos: r.posString()})
	case "recover":
		// called directly by a deferred function: the panicking frame is the caller's caller
		fr := r.curFr
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			return fr.caller.pan.v
		}
		return Iface{}
	case "min", "max":
		res := args[0]
		t := c.Args[0].Type()
		ti := infoOf(t)
		for _, a := range args[1:] {
			var lt Value
			if ti.k == kFloat {
				if f, ok := a.(float64); ok && math.IsNaN(f) {
					return a
				}
				if f, ok := res.(float64); ok && math.IsNaN(f) {
					return res
				}
			}
			if b.Name() == "min" {
				lt = r.binop(token.LSS, t, ti, a, res, nil)
			} else {
				lt = r.binop(token.LSS, t, ti, res, a, nil)
			}
			switch l := lt.(type) {
			case bool:
				if l {
					res = a
				}
			case *Term:
				if r.Branch(l) {
					res = a
				}
			}
		}
		return res
	case "close":
		if c, ok := args[0].(*ChanV); ok && c != nil {
			c.closed = true
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			r.nilDeref()
		}
		return args[0]
	case "String": // unsafe.String
		p, ok := args[0].(*Value)
		if ok && p == nil {
			return ""
		}
	}
	panic(unsupported{"builtin " + b.Name()})
}

func appendVals(dst, src []Value, et types.Type) []Value {
	n := len(dst) + len(src)
	if n <= cap(dst) {
		if len(src) == 0 {
			return dst
		}
		out := dst[:n]
		tmp := make([]Value, len(src))
		for i := range src {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			storeTo(&out[len(dst)+i], tmp[i])
		}
		return out
	}
	c := growCap(n, cap(dst), int(stdSizes.Sizeof(et)))
	if c < n {
		c = n
	}
	out := make([]Value, c)
	for i := range dst {
		out[i] = copyVal(dst[i])
	}
	for i := range src {
		out[len(dst)+i] = copyVal(src[i])
	}
	switch infoOf(et).k {
	case kStruct, kArray:
		for i := n; i < c; i++ {
			out[i] = zero(et)
		}
	default:
		if n < c {
			z := zero(et)
			for i := n; i < c; i++ {
				out[i] = z
			}
		}
	}
	return out[:n:c]
}

func (r *Run) fwidth(ti tinfo, v Value) Value {
	if ti.w == 32 {
		return r.narrow32(v)
	}
	return v
}
