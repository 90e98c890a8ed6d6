package sx

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

type deferred struct {
	fn   *FuncV
	args []Value
	tail *deferred
}

type frame struct {
	caller    *frame
	fn        *ssa.Function
	fi        *fnInfo
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    Value
	panicking bool
	panic     *targetPanic
}

func (m *Machine) get(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Global:
		return Ptr{m.global(x)}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{bi: x}
	}
	i, ok := fr.fi.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), fr.fn))
	}
	return fr.env[i]
}

func (m *Machine) getT(fr *frame, v ssa.Value) *smt.Term { return m.get(fr, v).(*smt.Term) }

func (m *Machine) constVal(k *ssa.Const) Value {
	if v, ok := m.consts[k]; ok {
		return v
	}
	v := m.mkConst(k)
	m.consts[k] = v
	return v
}

func (m *Machine) mkConst(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return m.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic(m.unsup("type parameter constant %s", tp))
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		panic(m.unsup("constant of type %s", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return m.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return m.strc(constant.StringVal(k.Value))
		}
		return m.strc(string(rune(k.Int64())))
	case b.Info()&types.IsInteger != 0:
		w, signed, _ := intInfo(t)
		if signed {
			return m.c.Const(w, uint64(k.Int64()))
		}
		return m.c.Const(w, k.Uint64())
	case b.Info()&types.IsFloat != 0:
		return FloatV(k.Float64())
	}
	panic(m.unsup("constant %s", k))
}

func (m *Machine) goPanicRT(msg string) {
	var v Value
	if rp := m.P.Prog.ImportedPackage("runtime"); rp != nil {
		if t := rp.Type("errorString"); t != nil {
			v = Iface{t.Type(), m.strc(msg)}
		}
	}
	if v == nil {
		v = Iface{types.Typ[types.String], m.strc(msg)}
	}
	panic(&targetPanic{v: v, rt: "runtime error: " + msg, pos: m.where()})
}

// call invokes a function value.
func (m *Machine) call(caller *frame, f *FuncV, args []Value) Value {
	if f == nil {
		m.goPanicRT("invalid memory address or nil pointer dereference")
	}
	if f.nat != nil {
		return f.nat(m, args)
	}
	if f.bi != nil {
		return m.builtin(caller, f.bi, args)
	}
	return m.callFn(caller, f.fn, args, f.env)
}

func (m *Machine) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := m.P.info(fn)
	if fi.intr != nil {
		if r, ok := fi.intr(m, caller, fn, args); ok {
			return r
		}
		fi = m.P.infoNoIntr(fn)
	}
	if fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Pkg != nil && m.inited[fn.Pkg] != 1 {
		// initialiser of an import: done on demand (module packages eagerly)
		return nil
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "reflect" && m.initing == 0 && !reflectSource[fi.name] {
		panic(m.unsup("reflect: %s", fi.name))
	}
	if fi.noBody {
		panic(m.unsup("function without body: %s", fi.name))
	}
	m.depth++
	if m.depth > 3000 {
		panic(pathEnd{StepLimit, "call depth"})
	}
	if fi.inMod && !m.Funcs[fi.name] {
		m.Funcs[fi.name] = true
	}
	fr := &frame{caller: caller, fn: fn, fi: fi, env: make([]Value, fi.n)}
	for i := range fn.Params {
		fr.env[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.env[len(fn.Params)+i] = env[i]
	}
	saved := m.curFn
	m.curFn = fn
	fr.block = fn.Blocks[0]
	if fi.hasDefer {
		d := m.depth
		for fr.block != nil {
			m.runDeferFrame(fr, d)
		}
	} else {
		m.runFrame(fr)
	}
	m.curFn = saved
	m.depth--
	return fr.result
}

func (p *Program) infoNoIntr(fn *ssa.Function) *fnInfo {
	type key struct{ f *ssa.Function }
	if v, ok := p.infos.Load(key{fn}); ok {
		return v.(*fnInfo)
	}
	name := fullName(fn)
	saved := intrinsics[name]
	_ = saved
	fi := p.mkInfo(fn, name)
	v, _ := p.infos.LoadOrStore(key{fn}, fi)
	return v.(*fnInfo)
}

func (m *Machine) runDeferFrame(fr *frame, depth int) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, isT := r.(*targetPanic)
		if !isT {
			panic(r)
		}
		m.depth = depth
		m.curFn = fr.fn
		fr.panicking = true
		fr.panic = tp
		m.runDefers(fr)
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// recovered without named results: zero result
			res := fr.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = m.zero(res.At(0).Type())
			default:
				fr.result = m.zero(res)
			}
		}
	}()
	m.runFrame(fr)
	ok = true
}

func (m *Machine) runDefers(fr *frame) {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		m.runDefer(fr, d)
	}
	fr.defers = nil
	if fr.panicking {
		panic(fr.panic)
	}
}

func (m *Machine) runDefer(fr *frame, d *deferred) {
	ok := false
	depth, cur := m.depth, m.curFn
	defer func() {
		if !ok {
			r := recover()
			tp, isT := r.(*targetPanic)
			if !isT {
				panic(r)
			}
			m.depth, m.curFn = depth, cur
			fr.panicking = true
			fr.panic = tp
		}
	}()
	m.call(fr, d.fn, d.args)
	ok = true
}

func (m *Machine) runFrame(fr *frame) {
	for {
	block:
		b := fr.block
		// phis first, in parallel
		i := 0
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[0].(*ssa.Phi); ok {
				pi := -1
				for j, p := range b.Preds {
					if p == fr.prev {
						pi = j
						break
					}
				}
				var vals []Value
				for ; i < len(b.Instrs); i++ {
					phi, ok := b.Instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, m.get(fr, phi.Edges[pi]))
				}
				for j := range vals {
					fr.env[fr.fi.regs[b.Instrs[j].(*ssa.Phi)]] = vals[j]
				}
			}
		}
		for ; i < len(b.Instrs); i++ {
			m.steps++
			if m.steps > m.MaxSteps && m.initing == 0 {
				panic(pathEnd{StepLimit, "step budget" + m.where()})
			}
			switch in := b.Instrs[i].(type) {
			case *ssa.Jump:
				fr.prev, fr.block = b, b.Succs[0]
				goto block
			case *ssa.If:
				s := 1
				if m.decide(m.getT(fr, in.Cond)) {
					s = 0
				}
				fr.prev, fr.block = b, b.Succs[s]
				goto block
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					fr.result = m.get(fr, in.Results[0])
				default:
					t := make(TupleV, len(in.Results))
					for k, r := range in.Results {
						t[k] = m.get(fr, r)
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.Panic:
				panic(&targetPanic{v: m.get(fr, in.X), pos: m.where()})
			case *ssa.RunDefers:
				m.runDefers(fr)
			case ssa.Value:
				fr.env[fr.fi.regs[in]] = m.eval(fr, in)
			default:
				m.exec(fr, in)
			}
		}
		panic("fell off block")
	}
}

func (m *Machine) exec(fr *frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		p := m.get(fr, x.Addr).(Ptr)
		m.store(p.loc, m.get(fr, x.Val))
	case *ssa.MapUpdate:
		m.mapSet(m.get(fr, x.Map).(*MapV), m.get(fr, x.Key), m.get(fr, x.Value))
	case *ssa.Defer:
		fn, args := m.prepCall(fr, &x.Call)
		fr.defers = &deferred{fn: fn, args: args, tail: fr.defers}
	case *ssa.DebugRef:
	case *ssa.Go:
		panic(m.unsup("go statement"))
	case *ssa.Send:
		panic(m.unsup("channel send"))
	default:
		panic(m.unsup("instruction %T", in))
	}
}

func (m *Machine) prepCall(fr *frame, c *ssa.CallCommon) (*FuncV, []Value) {
	var args []Value
	var f *FuncV
	if c.IsInvoke() {
		recv := m.get(fr, c.Value)
		iv, ok := recv.(Iface)
		if !ok {
			panic(m.unsup("invoke on %T", recv))
		}
		if iv.t == nil {
			m.goPanicRT("invalid memory address or nil pointer dereference")
		}
		if rt, ok := iv.v.(RType); ok {
			name := c.Method.Name()
			f = &FuncV{nat: func(m *Machine, a []Value) Value { return m.rtypeMethod(rt, name, a) }}
			for _, a := range c.Args {
				args = append(args, m.get(fr, a))
			}
			return f, args
		}
		fn := m.method(iv.t, c.Method)
		f = &FuncV{fn: fn}
		args = append(args, iv.v)
	} else {
		switch v := m.get(fr, c.Value).(type) {
		case *FuncV:
			f = v
		default:
			panic(m.unsup("call of %T", v))
		}
	}
	for _, a := range c.Args {
		args = append(args, m.get(fr, a))
	}
	return f, args
}

func (m *Machine) method(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth.Id()}
	if f, ok := m.methCache[k]; ok {
		return f
	}
	m.P.mu.Lock()
	f := m.P.Prog.LookupMethod(t, meth.Pkg(), meth.Name())
	m.P.mu.Unlock()
	if f == nil {
		panic(m.unsup("no method %s on %s", meth.Name(), t))
	}
	m.methCache[k] = f
	return f
}

func (m *Machine) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := m.implCache[k]; ok {
		return v
	}
	v := types.Implements(t, i)
	m.implCache[k] = v
	return v
}

func (m *Machine) eval(fr *frame, in ssa.Value) Value {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if x.Heap {
			m.addAlloc(m.intc(m.sizeof(t)))
		}
		return Ptr{m.newLoc(t)}
	case *ssa.UnOp:
		return m.unop(fr, x)
	case *ssa.BinOp:
		return m.binop(x.Op, x.X.Type(), m.get(fr, x.X), m.get(fr, x.Y), x.Y.Type())
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			args := make([]Value, len(x.Call.Args))
			for i, a := range x.Call.Args {
				args[i] = m.get(fr, a)
			}
			return m.builtinCall(fr, b, args, x.Call.Args, x.Type())
		}
		f, args := m.prepCall(fr, &x.Call)
		return m.call(fr, f, args)
	case *ssa.ChangeInterface:
		return m.get(fr, x.X)
	case *ssa.ChangeType:
		return m.get(fr, x.X)
	case *ssa.Convert:
		return m.convert(x.X.Type(), x.Type(), m.get(fr, x.X))
	case *ssa.MultiConvert:
		return m.convert(x.X.Type(), x.Type(), m.get(fr, x.X))
	case *ssa.Extract:
		return m.get(fr, x.Tuple).(TupleV)[x.Index]
	case *ssa.Field:
		return m.get(fr, x.X).(StructV)[x.Field]
	case *ssa.FieldAddr:
		p := m.get(fr, x.X).(Ptr)
		switch l := p.loc.(type) {
		case *StructLoc:
			return Ptr{l.f[x.Field]}
		case HdrViewLoc:
			return Ptr{HdrFieldLoc{l, x.Field}}
		case nil:
			m.goPanicRT("invalid memory address or nil pointer dereference")
		}
		panic(m.unsup("field address of %T", p.loc))
	case *ssa.Index:
		v := m.get(fr, x.X)
		idx := m.idx64(x.Index.Type(), m.getT(fr, x.Index))
		switch a := v.(type) {
		case ArrayV:
			m.bounds(idx, m.intc(int64(len(a))))
			if idx.IsConst() {
				return a[idx.Val]
			}
			if _, ok := a[0].(*smt.Term); ok {
				return m.iteTable(idx, a)
			}
			return a[m.concU(idx)]
		case Str:
			return m.strIndex(a, idx)
		}
		panic(m.unsup("index of %T", v))
	case *ssa.IndexAddr:
		return m.indexAddr(m.get(fr, x.X), m.idx64(x.Index.Type(), m.getT(fr, x.Index)))
	case *ssa.Lookup:
		switch c := m.get(fr, x.X).(type) {
		case Str:
			return m.strIndex(c, m.idx64(x.Index.Type(), m.getT(fr, x.Index)))
		case *MapV:
			k := m.get(fr, x.Index)
			i := m.mapFind(c, k)
			var v Value
			if i >= 0 {
				v = c.ents[i].v
			} else {
				v = m.zero(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				return TupleV{v, m.c.Bool(i >= 0)}
			}
			return v
		}
		panic(m.unsup("lookup"))
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.env = append(f.env, m.get(fr, b))
		}
		return f
	case *ssa.MakeInterface:
		v := m.get(fr, x.X)
		return Iface{x.X.Type(), v}
	case *ssa.MakeMap:
		t := x.Type().Underlying().(*types.Map)
		return m.newMap(t)
	case *ssa.MakeChan:
		panic(m.unsup("channel"))
	case *ssa.MakeSlice:
		return m.makeSlice(x.Type().Underlying().(*types.Slice).Elem(),
			m.idx64(x.Len.Type(), m.getT(fr, x.Len)), m.idx64(x.Cap.Type(), m.getT(fr, x.Cap)))
	case *ssa.Slice:
		return m.slice(fr, x)
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, x.X).(SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !m.decide(m.c.Cmp(smt.OpSLe, m.intc(n), s.len)) {
			m.goPanicRT("cannot convert slice to array or pointer to array: length too short")
		}
		if s.arr == nil {
			return Ptr{}
		}
		if s.off == 0 && s.arr.size() == int(n) {
			return Ptr{s.arr}
		}
		return Ptr{subArray{s.arr, s.off, int(n)}}
	case *ssa.TypeAssert:
		return m.typeAssert(x, m.get(fr, x.X))
	case *ssa.Range:
		v := m.get(fr, x.X)
		switch c := v.(type) {
		case Str:
			return &RangeIter{s: c, isStr: true}
		case *MapV:
			it := &RangeIter{}
			if c != nil {
				if c.shared || c.base {
					m.access(c, false)
				}
				it.ents = append(it.ents, c.ents...)
				m.reorder(it)
			}
			return it
		}
		panic(m.unsup("range over %T", v))
	case *ssa.Next:
		it := m.get(fr, x.Iter).(*RangeIter)
		if it.isStr {
			return m.nextRune(it)
		}
		for it.i < len(it.ents) {
			e := it.ents[it.i]
			it.i++
			if !e.dead {
				return TupleV{m.c.True, e.k, e.v}
			}
		}
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		return TupleV{m.c.False, m.zero(mt.Key()), m.zero(mt.Elem())}
	case *ssa.Select:
		panic(m.unsup("select"))
	}
	panic(m.unsup("instruction %T", in))
}

type RangeIter struct {
	s     Str
	isStr bool
	i     int
	ents  []*mapEnt
}

// reorder covers that the order of a range over a map is not specified: insertion order or
// the reverse, free for the first two ranges of a path, alternating from then on.
func (m *Machine) reorder(it *RangeIter) {
	n := 0
	for _, e := range it.ents {
		if !e.dead {
			n++
		}
	}
	if n < 2 || m.initing > 0 {
		return
	}
	k := m.mapRanges
	m.mapRanges++
	if k < 2 {
		k = m.choice(2)
	}
	if k&1 == 1 {
		for i, j := 0, len(it.ents)-1; i < j; i, j = i+1, j-1 {
			it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
		}
	}
}

// subArray is a pointer to part of an array viewed as an array.
type subArray struct {
	a   *ArrayLoc
	off int
	n   int
}

func (m *Machine) nextRune(it *RangeIter) Value {
	if it.i >= it.s.n {
		return TupleV{m.c.False, m.intc(0), m.c.Const(32, 0)}
	}
	p := it.i
	if b := it.s.at(p); m.decide(m.c.Cmp(smt.OpULt, b, m.c.Const(8, 0x80))) {
		it.i++
		return TupleV{m.c.True, m.intc(int64(p)), m.c.ZExt(b, 32)}
	}
	// the well-formed sequences of two, three and four bytes (Unicode, table 3-7)
	b := func(k int) *smt.Term { return it.s.at(p + k) }
	in := func(k int, lo, hi uint64) *smt.Term {
		return m.c.And(m.c.Cmp(smt.OpULe, m.c.Const(8, lo), b(k)), m.c.Cmp(smt.OpULe, b(k), m.c.Const(8, hi)))
	}
	is := func(n int, first *smt.Term) bool {
		if p+n > it.s.n {
			return false
		}
		c := first
		for k := 2; k < n; k++ {
			c = m.c.And(c, in(k, 0x80, 0xBF))
		}
		return m.decide(c)
	}
	rune := func(n int, mask uint64) Value {
		r := m.c.ZExt(m.c.Bin(smt.OpAnd, b(0), m.c.Const(8, mask)), 32)
		for k := 1; k < n; k++ {
			r = m.c.Bin(smt.OpOr, m.c.Bin(smt.OpShl, r, m.c.Const(32, 6)), m.c.ZExt(m.c.Bin(smt.OpAnd, b(k), m.c.Const(8, 0x3F)), 32))
		}
		it.i += n
		return TupleV{m.c.True, m.intc(int64(p)), r}
	}
	or, and := m.c.Or, m.c.And
	left := it.s.n - p
	switch {
	case left >= 2 && is(2, and(in(0, 0xC2, 0xDF), in(1, 0x80, 0xBF))):
		return rune(2, 0x1F)
	case left >= 3 && is(3, or(and(in(0, 0xE0, 0xE0), in(1, 0xA0, 0xBF)), or(and(in(0, 0xED, 0xED), in(1, 0x80, 0x9F)),
		and(or(in(0, 0xE1, 0xEC), in(0, 0xEE, 0xEF)), in(1, 0x80, 0xBF))))):
		return rune(3, 0x0F)
	case left >= 4 && is(4, or(and(in(0, 0xF0, 0xF0), in(1, 0x90, 0xBF)), or(and(in(0, 0xF4, 0xF4), in(1, 0x80, 0x8F)),
		and(in(0, 0xF1, 0xF3), in(1, 0x80, 0xBF))))):
		return rune(4, 0x07)
	}
	it.i++
	return TupleV{m.c.True, m.intc(int64(p)), m.c.Const(32, utf8.RuneError)}
}

func (m *Machine) newMap(t *types.Map) *MapV {
	m.addAlloc(m.intc(48))
	return &MapV{kt: t.Key(), vt: t.Elem(), idx: map[string]int{}, base: m.initing > 0}
}

func (m *Machine) idx64(t types.Type, v *smt.Term) *smt.Term {
	_, signed, ok := intInfo(t)
	if !ok {
		panic(m.unsup("index type %s", t))
	}
	if signed {
		return m.c.SExt(v, 64)
	}
	return m.c.ZExt(v, 64)
}

func (m *Machine) bounds(idx, n *smt.Term) {
	if !m.decide(m.c.Cmp(smt.OpULt, idx, n)) {
		m.goPanicRT(fmt.Sprintf("index out of range [%s] with length %s", tstr(idx), tstr(n)))
	}
}

func tstr(t *smt.Term) string {
	if t.IsConst() {
		return fmt.Sprint(t.SVal())
	}
	return "?"
}

func (m *Machine) strIndex(s Str, idx *smt.Term) Value {
	m.bounds(idx, m.intc(int64(s.n)))
	if idx.IsConst() {
		return s.at(int(idx.Val))
	}
	b := m.sb(s)
	vals := make([]Value, len(b))
	for i := range b {
		vals[i] = b[i]
	}
	return m.iteTable(idx, vals)
}

func (m *Machine) indexAddr(c Value, idx *smt.Term) Value {
	switch x := c.(type) {
	case SliceV:
		m.bounds(idx, x.len)
		if idx.IsConst() {
			return Ptr{m.elemLoc(x.arr, x.off+int(idx.Val))}
		}
		if x.arr.leaf && !x.len.IsConst() {
			return Ptr{&SymLoc{a: x.arr, off: x.off, idx: idx, len: x.len}}
		}
		if x.arr.leaf {
			return Ptr{&SymLoc{a: x.arr, off: x.off, idx: idx, n: int(x.len.SVal())}}
		}
		return Ptr{m.elemLoc(x.arr, x.off+int(m.conc(idx)))}
	case Ptr:
		switch a := x.loc.(type) {
		case *ArrayLoc:
			m.bounds(idx, m.intc(int64(a.size())))
			if idx.IsConst() {
				return Ptr{m.elemLoc(a, int(idx.Val))}
			}
			if a.leaf {
				return Ptr{&SymLoc{a: a, idx: idx, n: a.size()}}
			}
			return Ptr{m.elemLoc(a, int(m.conc(idx)))}
		case subArray:
			m.bounds(idx, m.intc(int64(a.n)))
			if idx.IsConst() || !a.a.leaf {
				return Ptr{m.elemLoc(a.a, a.off+int(m.conc(idx)))}
			}
			return Ptr{&SymLoc{a: a.a, off: a.off, idx: idx, n: a.n}}
		case nil:
			m.goPanicRT("invalid memory address or nil pointer dereference")
		}
	}
	panic(m.unsup("index address of %T", c))
}

const maxAlloc = uint64(1) << 47

func (m *Machine) makeSlice(et types.Type, n, cp *smt.Term) Value {
	sz := uint64(m.sizeof(et))
	lim := maxAlloc
	if sz > 0 {
		lim = maxAlloc / sz
	}
	if !m.decide(m.c.Cmp(smt.OpULe, n, m.c.Const(64, lim))) {
		m.goPanicRT("makeslice: len out of range")
	}
	if n != cp {
		if !m.decide(m.c.And(m.c.Cmp(smt.OpULe, cp, m.c.Const(64, lim)), m.c.Cmp(smt.OpULe, n, cp))) {
			m.goPanicRT("makeslice: cap out of range")
		}
	}
	m.addAlloc(m.c.Bin(smt.OpMul, cp, m.c.Const(64, sz)))
	k := 0
	if n.IsConst() {
		k = int(n.Val)
	}
	if cp.IsConst() && cp.Val < 1<<12 {
		k = int(cp.Val)
	}
	return SliceV{arr: m.newArray(et, k), off: 0, len: n, cap: cp}
}

func (m *Machine) addAlloc(n *smt.Term) {
	if m.initing == 0 && m.allocs != nil {
		m.allocs = m.c.Bin(smt.OpAdd, m.allocs, n)
	}
}

var stdSizes = types.SizesFor("gc", "amd64")

func (m *Machine) sizeof(t types.Type) int64 { return stdSizes.Sizeof(t) }

func (m *Machine) slice(fr *frame, x *ssa.Slice) Value {
	opt := func(v ssa.Value) *smt.Term {
		if v == nil {
			return nil
		}
		return m.idx64(v.Type(), m.getT(fr, v))
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = m.intc(0)
	}
	c := m.c
	base := m.get(fr, x.X)
	switch b := base.(type) {
	case Str:
		n := m.intc(int64(b.n))
		if hi == nil {
			hi = n
		}
		m.sliceBounds(lo, hi, n)
		l, h := int(m.conc(lo)), int(m.conc(hi))
		if b.arr != nil {
			return Str{arr: b.arr, off: b.off + l, n: h - l}
		}
		return Str{b: b.b[l:h:h], n: h - l}
	case SliceV:
		if hi == nil {
			hi = b.len
		}
		cp := b.cap
		if mx != nil {
			if !m.decide(c.Cmp(smt.OpULe, mx, cp)) {
				m.goPanicRT("slice bounds out of range [::" + tstr(mx) + "] with capacity " + tstr(cp))
			}
			cp = mx
		}
		m.sliceBounds(lo, hi, cp)
		l := int(m.conc(lo))
		if l == 0 {
			return SliceV{b.arr, b.off, hi, cp}
		}
		lt := m.intc(int64(l))
		return SliceV{b.arr, b.off + l, c.Bin(smt.OpSub, hi, lt), c.Bin(smt.OpSub, cp, lt)}
	case Ptr:
		var arr *ArrayLoc
		off, n := 0, 0
		switch a := b.loc.(type) {
		case *ArrayLoc:
			arr, n = a, a.size()
		case subArray:
			arr, off, n = a.a, a.off, a.n
		case nil:
			m.goPanicRT("invalid memory address or nil pointer dereference")
		default:
			panic(m.unsup("slice of pointer to %T", b.loc))
		}
		nt := m.intc(int64(n))
		if hi == nil {
			hi = nt
		}
		cp := nt
		if mx != nil {
			if !m.decide(c.Cmp(smt.OpULe, mx, cp)) {
				m.goPanicRT("slice bounds out of range")
			}
			cp = mx
		}
		m.sliceBounds(lo, hi, cp)
		l := int(m.conc(lo))
		lt := m.intc(int64(l))
		return SliceV{arr, off + l, c.Bin(smt.OpSub, hi, lt), c.Bin(smt.OpSub, cp, lt)}
	}
	panic(m.unsup("slice of %T", base))
}

func (m *Machine) sliceBounds(lo, hi, cp *smt.Term) {
	if !m.decide(m.c.Cmp(smt.OpULe, hi, cp)) {
		m.goPanicRT("slice bounds out of range [:" + tstr(hi) + "] with capacity " + tstr(cp))
	}
	if !m.decide(m.c.Cmp(smt.OpULe, lo, hi)) {
		m.goPanicRT("slice bounds out of range [" + tstr(lo) + ":" + tstr(hi) + "]")
	}
}

func (m *Machine) typeAssert(x *ssa.TypeAssert, v Value) Value {
	iv, isI := v.(Iface)
	if !isI {
		panic(m.unsup("type assertion on %T", v))
	}
	ok := false
	var res Value
	if it, isIface := x.AssertedType.Underlying().(*types.Interface); isIface {
		ok = iv.t != nil && m.implements(iv.t, it)
		if ok {
			res = iv
		} else {
			res = Iface{}
		}
	} else {
		ok = iv.t != nil && types.Identical(iv.t, x.AssertedType)
		if ok {
			res = iv.v
		} else {
			res = m.zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return TupleV{res, m.c.Bool(ok)}
	}
	if !ok {
		d := "nil"
		if iv.t != nil {
			d = iv.t.String()
		}
		m.goPanicRT("interface conversion: interface is " + d + ", not " + x.AssertedType.String())
	}
	return res
}

func (m *Machine) unop(fr *frame, x *ssa.UnOp) Value {
	v := m.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		p := v.(Ptr)
		if sa, ok := p.loc.(subArray); ok {
			r := make(ArrayV, sa.n)
			for i := range r {
				r[i] = m.load(m.elemLoc(sa.a, sa.off+i))
			}
			return r
		}
		return m.load(p.loc)
	case token.NOT:
		return m.c.Not(v.(*smt.Term))
	case token.SUB:
		if f, ok := v.(FloatV); ok {
			return -f
		}
		return m.c.Neg(v.(*smt.Term))
	case token.XOR:
		return m.c.BvNot(v.(*smt.Term))
	case token.ARROW:
		panic(m.unsup("channel receive"))
	}
	panic(m.unsup("unop %s", x.Op))
}

func (m *Machine) binop(op token.Token, t types.Type, a, b Value, yt types.Type) Value {
	c := m.c
	switch op {
	case token.EQL:
		return m.eqv(t, a, b)
	case token.NEQ:
		return c.Not(m.eqv(t, a, b))
	}
	switch x := a.(type) {
	case *smt.Term:
		y := b.(*smt.Term)
		if x.W == 0 {
			switch op {
			case token.AND, token.LAND:
				return c.And(x, y)
			case token.OR, token.LOR:
				return c.Or(x, y)
			}
			break
		}
		_, signed, _ := intInfo(t)
		switch op {
		case token.ADD:
			return c.Bin(smt.OpAdd, x, y)
		case token.SUB:
			return c.Bin(smt.OpSub, x, y)
		case token.MUL:
			return c.Bin(smt.OpMul, x, y)
		case token.QUO, token.REM:
			if m.decide(c.Eq(y, c.Const(y.W, 0))) {
				m.goPanicRT("integer divide by zero")
			}
			switch {
			case op == token.QUO && signed && !(nonNeg(x) && nonNeg(y)):
				return c.Bin(smt.OpSDiv, x, y)
			case op == token.QUO:
				return m.udivConst(x, y)
			case signed && !(nonNeg(x) && nonNeg(y)):
				return c.Bin(smt.OpSRem, x, y)
			default:
				return c.Bin(smt.OpURem, x, y)
			}
		case token.AND:
			return c.Bin(smt.OpBvAnd, x, y)
		case token.OR:
			return c.Bin(smt.OpBvOr, x, y)
		case token.XOR:
			return c.Bin(smt.OpBvXor, x, y)
		case token.AND_NOT:
			return c.Bin(smt.OpBvAnd, x, c.BvNot(y))
		case token.SHL, token.SHR:
			return m.shift(op, x, y, signed, yt)
		case token.LSS:
			return m.lt(x, y, signed)
		case token.GTR:
			return m.lt(y, x, signed)
		case token.LEQ:
			return c.Not(m.lt(y, x, signed))
		case token.GEQ:
			return c.Not(m.lt(x, y, signed))
		}
	case Str:
		y := b.(Str)
		switch op {
		case token.ADD:
			r := make([]*smt.Term, 0, x.n+y.n)
			r = append(r, m.sb(x)...)
			r = append(r, m.sb(y)...)
			m.addAlloc(m.intc(int64(len(r))))
			return m.mkStr(r)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return c.Not(m.strLess(y, x))
		case token.GEQ:
			return c.Not(m.strLess(x, y))
		}
	case FloatV:
		y := b.(FloatV)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return c.Bool(x < y)
		case token.GTR:
			return c.Bool(x > y)
		case token.LEQ:
			return c.Bool(x <= y)
		case token.GEQ:
			return c.Bool(x >= y)
		}
	}
	panic(m.unsup("binop %s on %T", op, a))
}

func (m *Machine) udivConst(x, y *smt.Term) *smt.Term {
	if y.IsConst() && y.Val != 0 && y.Val&(y.Val-1) == 0 {
		k := uint64(0)
		for y.Val>>k != 1 {
			k++
		}
		return m.c.Bin(smt.OpLShr, x, m.c.Const(x.W, k))
	}
	return m.c.Bin(smt.OpUDiv, x, y)
}

func nonNeg(t *smt.Term) bool {
	if t.W == 64 {
		return t.UMax() <= math.MaxInt64
	}
	return t.UMax() < 1<<(t.W-1)
}

func (m *Machine) eqv(t types.Type, a, b Value) *smt.Term {
	// comparison of interface with nil / func / slice / map with nil
	if x, ok := a.(Iface); ok {
		if y, ok := b.(Iface); ok {
			return m.eq(t, x, y)
		}
	}
	return m.eq(t, a, b)
}

func (m *Machine) lt(x, y *smt.Term, signed bool) *smt.Term {
	if signed {
		return m.c.Cmp(smt.OpSLt, x, y)
	}
	return m.c.Cmp(smt.OpULt, x, y)
}

func (m *Machine) shift(op token.Token, x, y *smt.Term, signed bool, yt types.Type) Value {
	c := m.c
	_, ysigned, _ := intInfo(yt)
	if ysigned && !y.IsConst() && !nonNeg(y) {
		if m.decide(c.Cmp(smt.OpSLt, y, c.Const(y.W, 0))) {
			m.goPanicRT("negative shift amount")
		}
	} else if ysigned && y.IsConst() && y.SVal() < 0 {
		m.goPanicRT("negative shift amount")
	}
	w := uint64(x.W)
	if y.IsConst() {
		k := y.Val
		if op == token.SHL {
			return c.Bin(smt.OpShl, x, c.Const(x.W, min(k, 255)))
		}
		if k >= w {
			if signed {
				k = w - 1
			} else {
				return c.Const(x.W, 0)
			}
		}
		if signed && !nonNeg(x) {
			return c.Bin(smt.OpAShr, x, c.Const(x.W, k))
		}
		return c.Bin(smt.OpLShr, x, c.Const(x.W, k))
	}
	var o smt.Op
	switch {
	case op == token.SHL:
		o = smt.OpShl
	case signed:
		o = smt.OpAShr
	default:
		o = smt.OpLShr
	}
	if y.W <= x.W {
		return c.Bin(o, x, c.ZExt(y, x.W))
	}
	big := c.Cmp(smt.OpULe, c.Const(y.W, w), y)
	small := c.Bin(o, x, c.Extract(y, x.W-1, 0))
	if o == smt.OpAShr {
		return c.Ite(big, c.Bin(smt.OpAShr, x, c.Const(x.W, w-1)), small)
	}
	return c.Ite(big, c.Const(x.W, 0), small)
}

func (m *Machine) convert(from, to types.Type, v Value) Value {
	c := m.c
	fu, tu := from.Underlying(), to.Underlying()
	if tw, tsigned, ok := intInfo(to); ok {
		switch x := v.(type) {
		case *smt.Term:
			_, fs, _ := intInfo(from)
			switch {
			case tw == x.W:
				return x
			case tw < x.W:
				return c.Extract(x, tw-1, 0)
			case fs:
				return c.SExt(x, tw)
			default:
				return c.ZExt(x, tw)
			}
		case FloatV:
			if tsigned {
				return c.Const(tw, uint64(int64(x)))
			}
			return c.Const(tw, uint64(x))
		case UPtr: // unsafe.Pointer -> uintptr
			return UAddr{x}
		case UAddr:
			return x
		}
	}
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsString != 0:
			switch x := v.(type) {
			case Str:
				return x
			case *smt.Term:
				return m.strc(string(rune(m.conc(x))))
			case SliceV:
				n := int(m.conc(x.len))
				m.addAlloc(m.intc(int64(n)))
				et := fu.(*types.Slice).Elem()
				if w, _, _ := intInfo(et); w == 8 {
					b := make([]*smt.Term, n)
					for i := range b {
						b[i] = m.load(m.elemLoc(x.arr, x.off+i)).(*smt.Term)
					}
					return m.mkStr(b)
				}
				var rs []rune
				for i := 0; i < n; i++ {
					rs = append(rs, rune(m.conc(m.load(m.elemLoc(x.arr, x.off+i)).(*smt.Term))))
				}
				return m.strc(string(rs))
			}
		case tb.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case FloatV:
				if tb.Kind() == types.Float32 {
					return FloatV(float32(x))
				}
				return x
			case *smt.Term:
				_, fs, _ := intInfo(from)
				if fs {
					return FloatV(m.conc(x))
				}
				return FloatV(m.concU(x))
			}
		case tb.Kind() == types.UnsafePointer:
			switch x := v.(type) {
			case Ptr:
				return UPtr{x, from}
			case UAddr:
				return x.u
			case UPtr:
				return x
			}
		}
	}
	switch t := tu.(type) {
	case *types.Slice:
		if s, ok := v.(Str); ok {
			w, _, _ := intInfo(t.Elem())
			if w == 8 {
				b := m.sb(s)
				if len(b) == 0 {
					return SliceV{arr: m.newArray(t.Elem(), 0), len: m.intc(0), cap: m.intc(0)}
				}
				cp := roundupsize(uint64(len(b)), true)
				if len(b) <= 32 {
					cp = 32
				}
				m.addAlloc(m.intc(int64(cp)))
				a := m.newArray(t.Elem(), int(cp))
				for i := range b {
					a.vals[i] = b[i]
				}
				return SliceV{arr: a, len: m.intc(int64(len(b))), cap: m.intc(int64(cp))}
			}
			it := &RangeIter{s: s, isStr: true}
			a := m.newArray(t.Elem(), 0)
			for it.i < s.n {
				r := m.nextRune(it).(TupleV)
				a.vals = append(a.vals, r[2])
			}
			n := m.intc(int64(len(a.vals)))
			return SliceV{arr: a, len: n, cap: n}
		}
	case *types.Pointer:
		switch x := v.(type) {
		case Ptr:
			return x
		case UPtr:
			return m.fromUPtr(x, to, t.Elem())
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	panic(m.unsup("convert %s to %s", from, to))
}

func (m *Machine) fromUPtr(u UPtr, to types.Type, elem types.Type) Value {
	if u.p.loc == nil {
		return Ptr{}
	}
	if u.t != nil {
		fe := u.t.Underlying().(*types.Pointer).Elem()
		if types.Identical(fe, elem) || types.Identical(fe.Underlying(), elem.Underlying()) {
			return u.p
		}
		// *intN -> *byte : little-endian view
		if fw, _, ok := intInfo(fe); ok {
			if tw, _, ok := intInfo(elem); ok {
				if fw == tw {
					return u.p
				}
				if tw == 8 {
					return Ptr{ByteViewLoc{u.p, fw, 0}}
				}
			}
		}
		if sl, ok := fe.Underlying().(*types.Slice); ok {
			if b, ok := elem.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				if w, _, _ := intInfo(sl.Elem()); w == 8 {
					return Ptr{StrViewLoc{u.p}}
				}
			}
			if _, ok := elem.Underlying().(*types.Struct); ok {
				return Ptr{HdrViewLoc{u.p, false}}
			}
		}
		if b, ok := fe.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if _, ok := elem.Underlying().(*types.Struct); ok {
				return Ptr{HdrViewLoc{u.p, true}}
			}
		}
		// *[]byte element pointer to array pointer etc.
		if ar, ok := elem.Underlying().(*types.Array); ok {
			if e, ok := u.p.loc.(ElemLoc); ok && types.Identical(ar.Elem(), e.a.elemT) {
				return Ptr{subArray{e.a, e.i, int(ar.Len())}}
			}
			// byte view of an integer as array
		}
	}
	panic(m.unsup("unsafe pointer conversion from %v to %s", u.t, to))
}

// ---- builtins

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []Value) Value {
	return m.builtinCall(fr, b, args, nil, nil)
}

func (m *Machine) builtinCall(fr *frame, b *ssa.Builtin, args []Value, av []ssa.Value, rt types.Type) Value {
	c := m.c
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(SliceV)
		var et types.Type
		if rt != nil {
			et = rt.Underlying().(*types.Slice).Elem()
		} else {
			et = b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		}
		return m.appendV(et, s, args[1])
	case "copy":
		dst := args[0].(SliceV)
		switch src := args[1].(type) {
		case Str:
			n := m.minConc(dst.len, m.intc(int64(src.n)))
			sb := m.sb(src)
			for i := 0; i < n; i++ {
				m.store(m.elemLoc(dst.arr, dst.off+i), sb[i])
			}
			return m.intc(int64(n))
		case SliceV:
			n := m.minConc(dst.len, src.len)
			m.steps += n / 8
			vals := make([]Value, n)
			for i := range vals {
				vals[i] = m.load(m.elemLoc(src.arr, src.off+i))
			}
			for i := range vals {
				m.store(m.elemLoc(dst.arr, dst.off+i), vals[i])
			}
			return m.intc(int64(n))
		}
	case "len":
		return m.length(args[0])
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return x.cap
		default:
			return m.length(x)
		}
	case "delete":
		if mp := args[0].(*MapV); mp != nil {
			m.mapDel(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.ents {
					if !e.dead {
						m.mapDel(x, e.k)
					}
				}
			}
		case SliceV:
			n := int(m.conc(x.len))
			for i := 0; i < n; i++ {
				m.store(m.elemLoc(x.arr, x.off+i), m.zero(x.arr.elemT))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], pos: m.where()})
	case "recover":
		if fr != nil && !fr.panicking && fr.caller != nil && fr.caller.panicking && !fr.caller.panic.exit {
			fr.caller.panicking = false
			p := fr.caller.panic
			fr.caller.panic = nil
			v := p.v
			if iv, ok := v.(Iface); ok && iv.t == nil {
				// panic(nil) -> runtime.PanicNilError
				return Iface{types.Typ[types.String], m.strc("panic called with nil argument")}
			}
			return v
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *smt.Term:
				_, signed, _ := intInfo(av[0].Type())
				lt := m.lt(x, a.(*smt.Term), signed)
				if b.Name() == "max" {
					lt = m.lt(a.(*smt.Term), x, signed)
				}
				r = c.Ite(lt, x, a.(*smt.Term))
			case FloatV:
				if b.Name() == "min" {
					r = FloatV(math.Min(float64(x), float64(a.(FloatV))))
				} else {
					r = FloatV(math.Max(float64(x), float64(a.(FloatV))))
				}
			case Str:
				l := m.decide(m.strLess(x, a.(Str)))
				if l != (b.Name() == "min") {
					r = a
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].(Ptr).loc == nil {
			m.goPanicRT("value method called using nil pointer")
		}
		return args[0]
	case "Sizeof":
		if len(av) == 1 {
			return m.c.Const(64, uint64(m.sizeof(av[0].Type())))
		}
	case "Alignof":
		if len(av) == 1 {
			return m.c.Const(64, uint64(stdSizes.Alignof(av[0].Type())))
		}
	case "ssa:deferstack":
		return UPtr{}
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := int(m.conc(m.idx64(av[1].Type(), args[1].(*smt.Term))))
		if n == 0 {
			return Str{}
		}
		if e, ok := p.loc.(ElemLoc); ok {
			m.ensure(e.a, e.i+n)
			return Str{arr: e.a, off: e.i, n: n}
		}
	case "StringData":
		s := args[0].(Str)
		if s.arr == nil {
			s = m.strToArr(s)
		}
		return Ptr{ElemLoc{s.arr, s.off}}
	case "SliceData":
		s := args[0].(SliceV)
		if s.arr == nil {
			return Ptr{}
		}
		if s.arr.leaf {
			return Ptr{ElemLoc{s.arr, s.off}}
		}
		if s.off < len(s.arr.subs) {
			return Ptr{s.arr.subs[s.off]}
		}
	case "Slice": // unsafe.Slice
		p := args[0].(Ptr)
		n := m.idx64(av[1].Type(), args[1].(*smt.Term))
		if p.loc == nil {
			return SliceV{len: m.intc(0), cap: m.intc(0)}
		}
		if e, ok := p.loc.(ElemLoc); ok {
			k := int(m.conc(n))
			m.ensure(e.a, e.i+k)
			return SliceV{e.a, e.i, n, n}
		}
	}
	panic(m.unsup("builtin %s", b.Name()))
}

func (m *Machine) length(v Value) *smt.Term {
	switch x := v.(type) {
	case Str:
		return m.intc(int64(x.n))
	case SliceV:
		return x.len
	case ArrayV:
		return m.intc(int64(len(x)))
	case *MapV:
		if x == nil {
			return m.intc(0)
		}
		if x.shared || x.base {
			m.access(x, false)
		}
		return m.intc(int64(x.n))
	case Ptr:
		if a, ok := x.loc.(*ArrayLoc); ok {
			return m.intc(int64(a.size()))
		}
		if a, ok := x.loc.(subArray); ok {
			return m.intc(int64(a.n))
		}
	}
	panic(m.unsup("len of %T", v))
}

func (m *Machine) minConc(a, b *smt.Term) int {
	if m.decide(m.c.Cmp(smt.OpSLe, a, b)) {
		return int(m.conc(a))
	}
	return int(m.conc(b))
}

var sizeClasses = []uint64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n uint64, noscan bool) uint64 {
	if !noscan && n > 512 {
		n += 8
		defer func() {}()
		for _, s := range sizeClasses {
			if s >= n && n <= 32768 {
				return s - 8
			}
		}
	}
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func growCap(oldCap, newLen int, size uint64, noscan bool) int {
	newcap := oldCap
	if newLen > 2*oldCap {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = 2 * oldCap
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if size == 0 {
		return newLen
	}
	return int(roundupsize(uint64(newcap)*size, noscan) / size)
}

func (m *Machine) appendV(et types.Type, s SliceV, extra Value) Value {
	var vals []Value
	switch x := extra.(type) {
	case Str:
		for _, b := range m.sb(x) {
			vals = append(vals, b)
		}
	case SliceV:
		n := int(m.conc(x.len))
		m.steps += n / 8
		vals = make([]Value, n)
		for i := range vals {
			vals[i] = m.load(m.elemLoc(x.arr, x.off+i))
		}
	default:
		panic(m.unsup("append of %T", extra))
	}
	if len(vals) == 0 {
		return s
	}
	n := int(m.conc(s.len))
	need := n + len(vals)
	fits := m.decide(m.c.Cmp(smt.OpSLe, m.intc(int64(need)), s.cap))
	if !fits {
		oc := int(m.conc(s.cap))
		sz := uint64(m.sizeof(et))
		nc := growCap(oc, need, sz, !hasPointers(et))
		m.addAlloc(m.intc(int64(uint64(nc) * sz)))
		na := m.newArray(et, nc)
		for i := 0; i < n; i++ {
			m.store(m.elemLoc(na, i), m.load(m.elemLoc(s.arr, s.off+i)))
		}
		s = SliceV{arr: na, off: 0, len: s.len, cap: m.intc(int64(nc))}
	}
	for i, v := range vals {
		m.store(m.elemLoc(s.arr, s.off+n+i), v)
	}
	s.len = m.intc(int64(need))
	return s
}
