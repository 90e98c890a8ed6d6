// Package sx is a symbolic executor for go/ssa programs.
package sx

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// Value is one of: *smt.Term (bool and integers), FloatV, Str, Ptr, SliceV, StructV,
// ArrayV, Iface, *FuncV, *MapV, TupleV, UPtr (unsafe.Pointer), UAddr (uintptr holding an
// address), *RangeIter, RType/RValue (reflect), *ChanV.
type Value interface{}

type FloatV float64

// Str is a string of concrete length; bytes are terms. If arr is set the string aliases a
// byte array (produced by unsafe conversions).
type Str struct {
	b   []*smt.Term
	arr *ArrayLoc
	off int
	n   int
}

type Ptr struct{ loc Loc }

type SliceV struct {
	arr      *ArrayLoc
	off      int
	len, cap *smt.Term // 64 bit
}

type StructV []Value
type ArrayV []Value
type TupleV []Value

type Iface struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn  *ssa.Function
	env []Value
	bi  *ssa.Builtin
	nat func(m *Machine, args []Value) Value
}

type UPtr struct {
	p Ptr
	t types.Type // static pointee type when the pointer was converted
}

type UAddr struct{ u UPtr }

type ChanV struct{}

type mapEnt struct {
	k, v Value
	dead bool
}

type MapV struct {
	kt, vt types.Type
	ents   []*mapEnt
	idx    map[string]int
	n      int
	sym    bool // some key is symbolic
	base   bool
	shared bool
}

// ---- locations

type Loc interface{}

type Cell struct {
	v            Value
	base, shared bool
}

type StructLoc struct {
	f []Loc
	t types.Type
}

type ArrayLoc struct {
	elemT        types.Type
	leaf         bool
	vals         []Value // leaf elements
	subs         []Loc   // aggregate elements
	zero         Value
	base, shared bool
}

type ElemLoc struct {
	a *ArrayLoc
	i int
}

// SymLoc addresses leaf element off+idx of a, idx < n.
type SymLoc struct {
	a   *ArrayLoc
	off int
	idx *smt.Term
	n   int
	len *smt.Term // instead of n: a symbolic length
}

// fix settles the length.
func (m *Machine) fix(l *SymLoc) {
	if l.len != nil {
		l.n, l.len = int(m.conc(l.len)), nil
	}
}

// blank tells whether nothing was ever stored in the array.
func (a *ArrayLoc) blank() bool {
	for _, v := range a.vals {
		if v != a.zero {
			return false
		}
	}
	return true
}

// ByteViewLoc is byte i (little endian) of an integer location.
type ByteViewLoc struct {
	p  Ptr
	w  uint8
	ix int
}

// StrViewLoc views a []byte location as a string.
type StrViewLoc struct{ p Ptr }

// HdrViewLoc views a string or slice location as its header struct.
type HdrViewLoc struct {
	p     Ptr
	isStr bool
}
type HdrFieldLoc struct {
	h HdrViewLoc
	i int
}

func under(t types.Type) types.Type { return t.Underlying() }

func isLeaf(t types.Type) bool {
	if isRV(t) {
		return true
	}
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

func (m *Machine) newLoc(t types.Type) Loc {
	if isRV(t) {
		return &Cell{v: RValue{}, base: m.initing > 0}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		s := &StructLoc{f: make([]Loc, u.NumFields()), t: t}
		for i := range s.f {
			s.f[i] = m.newLoc(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return m.newArray(u.Elem(), int(u.Len()))
	}
	return &Cell{v: m.zero(t), base: m.initing > 0}
}

func (m *Machine) newArray(et types.Type, n int) *ArrayLoc {
	a := &ArrayLoc{elemT: et, leaf: isLeaf(et), base: m.initing > 0}
	if n > 1<<22 {
		m.abort("array too large: %d", n)
	}
	if a.leaf {
		a.zero = m.zero(et)
		a.vals = make([]Value, n)
		for i := range a.vals {
			a.vals[i] = a.zero
		}
	} else {
		a.subs = make([]Loc, n)
		for i := range a.subs {
			a.subs[i] = m.newLoc(et)
		}
	}
	return a
}

func (m *Machine) ensure(a *ArrayLoc, n int) {
	if n > 1<<22 {
		m.abort("array too large: %d", n)
	}
	if a.leaf {
		for len(a.vals) < n {
			a.vals = append(a.vals, a.zero)
		}
	} else {
		for len(a.subs) < n {
			a.subs = append(a.subs, m.newLoc(a.elemT))
		}
	}
}

func (a *ArrayLoc) size() int {
	if a.leaf {
		return len(a.vals)
	}
	return len(a.subs)
}

func (m *Machine) elemLoc(a *ArrayLoc, i int) Loc {
	m.ensure(a, i+1)
	if a.leaf {
		return ElemLoc{a, i}
	}
	return a.subs[i]
}

func (m *Machine) load(l Loc) Value {
	switch l := l.(type) {
	case *Cell:
		if l.shared || l.base {
			m.access(l, false)
		}
		return l.v
	case ElemLoc:
		if l.a.shared || l.a.base {
			m.access(l.a, false)
		}
		return l.a.vals[l.i]
	case *StructLoc:
		v := make(StructV, len(l.f))
		for i, f := range l.f {
			v[i] = m.load(f)
		}
		return v
	case *ArrayLoc:
		if l.leaf {
			if l.shared || l.base {
				m.access(l, false)
			}
			v := make(ArrayV, len(l.vals))
			copy(v, l.vals)
			return v
		}
		v := make(ArrayV, len(l.subs))
		for i, f := range l.subs {
			v[i] = m.load(f)
		}
		return v
	case *SymLoc:
		if l.a.shared || l.a.base {
			m.access(l.a, false)
		}
		return m.symRead(l)
	case ByteViewLoc:
		t := m.load(l.p.loc).(*smt.Term)
		return m.c.Extract(t, uint8(l.ix*8+7), uint8(l.ix*8))
	case StrViewLoc:
		s := m.load(l.p.loc).(SliceV)
		n := int(m.conc(s.len))
		if s.arr == nil {
			return Str{}
		}
		m.ensure(s.arr, s.off+n)
		return Str{arr: s.arr, off: s.off, n: n}
	case HdrFieldLoc:
		v := m.load(l.h.p.loc)
		if l.h.isStr {
			s := v.(Str)
			if l.i == 1 {
				return m.intc(int64(s.n))
			}
			if s.arr == nil {
				s = m.strToArr(s)
			}
			return UAddr{UPtr{Ptr{SliceV{arr: s.arr, off: s.off}}, nil}}
		}
		s := v.(SliceV)
		switch l.i {
		case 0:
			return UAddr{UPtr{Ptr{SliceV{arr: s.arr, off: s.off}}, nil}}
		case 1:
			return s.len
		default:
			return s.cap
		}
	case nil:
		m.goPanicRT("invalid memory address or nil pointer dereference")
	}
	panic(m.unsup("load from %T", l))
}

func (m *Machine) strToArr(s Str) Str {
	a := m.newArray(types.Typ[types.Uint8], s.n)
	for i, b := range m.sb(s) {
		a.vals[i] = b
	}
	return Str{arr: a, off: 0, n: s.n}
}

func (m *Machine) symRead(l *SymLoc) Value {
	if _, ok := l.a.zero.(*smt.Term); ok && l.len != nil && l.a.blank() {
		return l.a.zero
	}
	m.fix(l)
	m.ensure(l.a, l.off+l.n)
	vals := l.a.vals[l.off : l.off+l.n]
	if _, ok := vals[0].(*smt.Term); !ok {
		i := int(m.concU(l.idx))
		return vals[i]
	}
	return m.iteTable(l.idx, vals)
}

// iteTable builds vals[idx] as an ite chain, grouping equal values.
func (m *Machine) iteTable(idx *smt.Term, vals []Value) *smt.Term {
	n := len(vals)
	if um := idx.UMax(); um < uint64(n)-1 {
		n = int(um) + 1
	}
	// balanced tree on idx
	var build func(lo, hi int) *smt.Term
	build = func(lo, hi int) *smt.Term {
		if hi-lo == 1 {
			return vals[lo].(*smt.Term)
		}
		mid := (lo + hi) / 2
		l, r := build(lo, mid), build(mid, hi)
		if l == r {
			return l
		}
		return m.c.Ite(m.c.Cmp(smt.OpULt, idx, m.c.Const(idx.W, uint64(mid))), l, r)
	}
	return build(0, n)
}

func (m *Machine) note(l Loc, base, shared bool) bool {
	if shared || base {
		m.access(l, true)
	}
	return base && m.initing == 0
}

func (m *Machine) store(l Loc, v Value) {
	switch l := l.(type) {
	case *Cell:
		if l.shared {
			m.markShared(v)
		}
		if m.note(l, l.base, l.shared) {
			old := l.v
			m.undo = append(m.undo, func() { l.v = old })
		}
		l.v = v
	case ElemLoc:
		if l.a.shared {
			m.markShared(v)
		}
		if m.note(l.a, l.a.base, l.a.shared) {
			a, i, old := l.a, l.i, l.a.vals[l.i]
			m.undo = append(m.undo, func() { a.vals[i] = old })
		}
		l.a.vals[l.i] = v
	case *StructLoc:
		sv := v.(StructV)
		for i, f := range l.f {
			m.store(f, sv[i])
		}
	case *ArrayLoc:
		av := v.(ArrayV)
		for i := range av {
			m.store(m.elemLoc(l, i), av[i])
		}
	case *SymLoc:
		nv, ok := v.(*smt.Term)
		if !ok {
			i := int(m.concU(l.idx))
			m.store(m.elemLoc(l.a, l.off+i), v)
			return
		}
		m.fix(l)
		m.ensure(l.a, l.off+l.n)
		for i := 0; i < l.n; i++ {
			old := l.a.vals[l.off+i].(*smt.Term)
			m.store(ElemLoc{l.a, l.off + i}, m.c.Ite(m.c.Eq(l.idx, m.c.Const(l.idx.W, uint64(i))), nv, old))
		}
	case ByteViewLoc:
		t := m.load(l.p.loc).(*smt.Term)
		b := v.(*smt.Term)
		msk := m.c.Const(t.W, ^(uint64(0xff) << (8 * l.ix)))
		nv := m.c.Bin(smt.OpBvOr, m.c.Bin(smt.OpBvAnd, t, msk),
			m.c.Bin(smt.OpShl, m.c.ZExt(b, t.W), m.c.Const(t.W, uint64(8*l.ix))))
		m.store(l.p.loc, nv)
	case HdrFieldLoc:
		cur := m.load(l.h.p.loc)
		if l.h.isStr {
			s := cur.(Str)
			if l.i == 1 {
				n := int(m.conc(v.(*smt.Term)))
				if s.arr == nil {
					s = m.strToArr(s)
				}
				m.ensure(s.arr, s.off+n)
				s.n = n
			} else {
				sv := v.(UAddr).u.p.loc.(SliceV)
				if sv.arr == nil {
					s = Str{}
				} else {
					s = Str{arr: sv.arr, off: sv.off, n: s.n}
				}
			}
			m.store(l.h.p.loc, s)
			return
		}
		s := cur.(SliceV)
		switch l.i {
		case 0:
			sv := v.(UAddr).u.p.loc.(SliceV)
			s.arr, s.off = sv.arr, sv.off
		case 1:
			s.len = v.(*smt.Term)
		default:
			s.cap = v.(*smt.Term)
		}
		m.store(l.h.p.loc, s)
	case subArray:
		av := v.(ArrayV)
		for i := range av {
			m.store(m.elemLoc(l.a, l.off+i), av[i])
		}
	case nil:
		m.goPanicRT("invalid memory address or nil pointer dereference")
	default:
		panic(m.unsup("store to %T", l))
	}
}

// sb returns the bytes of s.
func (m *Machine) sb(s Str) []*smt.Term {
	m.steps += s.n / 8
	if s.arr != nil {
		r := make([]*smt.Term, s.n)
		for i := range r {
			r[i] = s.arr.vals[s.off+i].(*smt.Term)
		}
		return r
	}
	return s.b
}

func (s Str) length() int { return s.n }

// at is byte i.
func (s Str) at(i int) *smt.Term {
	if s.arr != nil {
		return s.arr.vals[s.off+i].(*smt.Term)
	}
	return s.b[i]
}

func (m *Machine) mkStr(b []*smt.Term) Str { return Str{b: b, n: len(b)} }

func (m *Machine) strc(s string) Str {
	b := make([]*smt.Term, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = m.c.Const(8, uint64(s[i]))
	}
	return Str{b: b, n: len(b)}
}

// concStr returns the Go string if all bytes are constants.
func (m *Machine) concStr(s Str) (string, bool) {
	r := make([]byte, s.n)
	for i, b := range m.sb(s) {
		if !b.IsConst() {
			return "", false
		}
		r[i] = byte(b.Val)
	}
	return string(r), true
}

func (m *Machine) intc(v int64) *smt.Term { return m.c.Const(64, uint64(v)) }

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (m *Machine) zero(t types.Type) Value {
	if isRV(t) {
		return RValue{}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			return m.c.Const(w, 0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.c.False
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsFloat != 0:
			return FloatV(0)
		case u.Kind() == types.UnsafePointer:
			return UPtr{}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		case u.Info()&types.IsComplex != 0:
			return FloatV(0)
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{len: m.intc(0), cap: m.intc(0)}
	case *types.Struct:
		v := make(StructV, u.NumFields())
		for i := range v {
			v[i] = m.zero(u.Field(i).Type())
		}
		return v
	case *types.Array:
		v := make(ArrayV, u.Len())
		for i := range v {
			v[i] = m.zero(u.Elem())
		}
		return v
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Tuple:
		v := make(TupleV, u.Len())
		for i := range v {
			v[i] = m.zero(u.At(i).Type())
		}
		return v
	}
	panic(m.unsup("zero of %s", t))
}

// copyVal returns an independent copy of aggregates (value semantics).
// StructV/ArrayV are treated as immutable by the interpreter, so no copy is needed.

func (m *Machine) eq(t types.Type, a, b Value) *smt.Term {
	c := m.c
	switch x := a.(type) {
	case *smt.Term:
		return c.Eq(x, b.(*smt.Term))
	case FloatV:
		return c.Bool(x == b.(FloatV))
	case Str:
		return m.strEq(x, b.(Str))
	case Ptr:
		return c.Bool(x == b.(Ptr))
	case UPtr:
		return c.Bool(x.p == b.(UPtr).p)
	case StructV:
		y := b.(StructV)
		st := under(t).(*types.Struct)
		r := c.True
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = c.And(r, m.eq(st.Field(i).Type(), x[i], y[i]))
		}
		return r
	case ArrayV:
		y := b.(ArrayV)
		et := under(t).(*types.Array).Elem()
		r := c.True
		for i := range x {
			r = c.And(r, m.eq(et, x[i], y[i]))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(m.unsup("iface compare with %T", b))
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		if !types.Comparable(x.t) {
			m.goPanicRT("comparing uncomparable type " + x.t.String())
		}
		return m.eq(x.t, x.v, y.v)
	case *FuncV:
		y := b.(*FuncV)
		return c.Bool(x == y)
	case *MapV:
		return c.Bool(x == b.(*MapV))
	case SliceV:
		y := b.(SliceV)
		return c.Bool(x.arr == nil && y.arr == nil) // only nil comparison is legal
	case *ChanV:
		return c.Bool(x == b.(*ChanV))
	case RType:
		y, ok := b.(RType)
		return c.Bool(ok && types.Identical(x.t, y.t))
	}
	panic(m.unsup("eq of %T", a))
}

func (m *Machine) strEq(x, y Str) *smt.Term {
	if x.n != y.n {
		return m.c.False
	}
	xb, yb := m.sb(x), m.sb(y)
	r := m.c.True
	for i := range xb {
		r = m.c.And(r, m.c.Eq(xb[i], yb[i]))
		if r == m.c.False {
			return r
		}
	}
	return r
}

// strLess is x < y.
func (m *Machine) strLess(x, y Str) *smt.Term {
	xb, yb := m.sb(x), m.sb(y)
	n := min(len(xb), len(yb))
	r := m.c.Bool(len(xb) < len(yb))
	for i := n - 1; i >= 0; i-- {
		r = m.c.Ite(m.c.Eq(xb[i], yb[i]), r, m.c.Cmp(smt.OpULt, xb[i], yb[i]))
	}
	return r
}

// keyStr canonicalises a concrete map key.
func (m *Machine) keyStr(k Value) (string, bool) {
	switch x := k.(type) {
	case *smt.Term:
		if !x.IsConst() {
			return "", false
		}
		return fmt.Sprintf("i%d", x.Val), true
	case Str:
		s, ok := m.concStr(x)
		return "s" + s, ok
	case FloatV:
		return fmt.Sprintf("f%v", float64(x)), true
	case Ptr:
		if e, ok := x.loc.(ElemLoc); ok {
			return fmt.Sprintf("p%p.%d", e.a, e.i), true
		}
		return fmt.Sprintf("p%p", x.loc), true
	case StructV:
		s := "{"
		for _, f := range x {
			r, ok := m.keyStr(f)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d:%s,", len(r), r)
		}
		return s + "}", true
	case ArrayV:
		s := "["
		for _, f := range x {
			r, ok := m.keyStr(f)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d:%s,", len(r), r)
		}
		return s + "]", true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		if !types.Comparable(x.t) {
			m.goPanicRT("hash of unhashable type " + x.t.String())
		}
		r, ok := m.keyStr(x.v)
		return "I" + x.t.String() + ":" + r, ok
	}
	return "", false
}

// find returns the entry index for key k, or -1. It may fork.
func (m *Machine) mapFind(mp *MapV, k Value) int {
	if mp == nil {
		if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
			m.goPanicRT("hash of unhashable type " + i.t.String())
		}
		return -1
	}
	if mp.shared || mp.base {
		m.access(mp, false)
	}
	ks, conc := m.keyStr(k)
	if conc && !mp.sym {
		if i, ok := mp.idx[ks]; ok && !mp.ents[i].dead {
			return i
		}
		return -1
	}
	for i, e := range mp.ents {
		if e.dead {
			continue
		}
		if m.decide(m.eq(mp.kt, k, e.k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mp *MapV, k, v Value) {
	if mp == nil {
		m.goPanicRT("assignment to entry in nil map")
	}
	i := m.mapFind(mp, k)
	if mp.shared {
		m.markShared(k)
		m.markShared(v)
	}
	ud := m.note(mp, mp.base, mp.shared)
	if i >= 0 {
		e := mp.ents[i]
		if ud {
			old := e.v
			m.undo = append(m.undo, func() { e.v = old })
		}
		e.v = v
		return
	}
	ks, conc := m.keyStr(k)
	if ud {
		oldEnts, oldSym, oldN := mp.ents, mp.sym, mp.n
		oldIdx, had := mp.idx[ks]
		m.undo = append(m.undo, func() {
			mp.ents, mp.sym, mp.n = oldEnts, oldSym, oldN
			if conc {
				if had {
					mp.idx[ks] = oldIdx
				} else {
					delete(mp.idx, ks)
				}
			}
		})
	}
	if conc {
		mp.idx[ks] = len(mp.ents)
	} else {
		mp.sym = true
	}
	mp.ents = append(mp.ents[:len(mp.ents):len(mp.ents)], &mapEnt{k: k, v: v})
	mp.n++
}

func (m *Machine) mapDel(mp *MapV, k Value) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	e := mp.ents[i]
	if m.note(mp, mp.base, mp.shared) {
		on := mp.n
		m.undo = append(m.undo, func() { e.dead = false; mp.n = on })
	}
	e.dead = true
	mp.n--
}
