package sx

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// RType is a reflect.Type.
type RType struct{ t types.Type }

// RValue is a reflect.Value. t == nil is the zero Value. fn is set for method values.
type RValue struct {
	t    types.Type
	v    Value
	ro   bool
	fn   *ssa.Function
	recv Value
}

func isRV(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && o.Pkg().Path() == "reflect"
}

func kindOf(t types.Type) uint64 {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func (m *Machine) reflectNamed(name string) types.Type {
	p := m.P.Prog.ImportedPackage("reflect")
	if p == nil || p.Type(name) == nil {
		panic(m.unsup("reflect.%s not loaded", name))
	}
	return p.Type(name).Type()
}

func (m *Machine) mkRType(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{types.NewPointer(m.reflectNamed("rtype")), RType{t}}
}

func typeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if s == "any" || s == "interface{}" {
		return "interface {}"
	}
	return s
}

func (m *Machine) rtypeMethod(rt RType, name string, a []Value) Value {
	idx := func() int { return int(m.conc(a[0].(*smt.Term))) }
	sig, _ := under(rt.t).(*types.Signature)
	st, _ := under(rt.t).(*types.Struct)
	bad := func() { m.goPanicRT("reflect: " + name + " of type " + rt.t.String()) }
	switch name {
	case "Kind":
		return m.c.Const(64, kindOf(rt.t))
	case "String":
		return m.strc(typeString(rt.t))
	case "Name":
		switch n := types.Unalias(rt.t).(type) {
		case *types.Named:
			return m.strc(n.Obj().Name())
		case *types.Basic:
			return m.strc(n.Name())
		}
		return m.strc("")
	case "PkgPath":
		if n, ok := types.Unalias(rt.t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return m.strc(n.Obj().Pkg().Path())
		}
		return m.strc("")
	case "NumIn", "NumOut", "In", "Out", "IsVariadic":
		if sig == nil {
			bad()
		}
		switch name {
		case "NumIn":
			return m.intc(int64(sig.Params().Len()))
		case "NumOut":
			return m.intc(int64(sig.Results().Len()))
		case "IsVariadic":
			return m.c.Bool(sig.Variadic())
		}
		tu := sig.Params()
		if name == "Out" {
			tu = sig.Results()
		}
		i := idx()
		if i < 0 || i >= tu.Len() {
			m.goPanicRT("index out of range")
		}
		return m.mkRType(tu.At(i).Type())
	case "NumField":
		if st == nil {
			bad()
		}
		return m.intc(int64(st.NumFields()))
	case "Field":
		if st == nil {
			bad()
		}
		i := idx()
		if i < 0 || i >= st.NumFields() {
			m.goPanicRT("reflect: Field index out of bounds")
		}
		ft := m.reflectNamed("StructField")
		v := m.zero(ft).(StructV)
		fs := under(ft).(*types.Struct)
		for j := 0; j < fs.NumFields(); j++ {
			f := st.Field(i)
			switch fs.Field(j).Name() {
			case "Name":
				v[j] = m.strc(f.Name())
			case "PkgPath":
				if !f.Exported() {
					v[j] = m.strc(f.Pkg().Path())
				}
			case "Type":
				v[j] = m.mkRType(f.Type())
			case "Tag":
				v[j] = m.strc(st.Tag(i))
			case "Anonymous":
				v[j] = m.c.Bool(f.Anonymous())
			case "Index":
				arr := m.newArray(types.Typ[types.Int], 1)
				arr.vals[0] = m.intc(int64(i))
				v[j] = SliceV{arr: arr, len: m.intc(1), cap: m.intc(1)}
			}
		}
		return v
	case "Elem":
		switch u := under(rt.t).(type) {
		case *types.Pointer:
			return m.mkRType(u.Elem())
		case *types.Slice:
			return m.mkRType(u.Elem())
		case *types.Array:
			return m.mkRType(u.Elem())
		case *types.Map:
			return m.mkRType(u.Elem())
		}
		bad()
	case "Key":
		if u, ok := under(rt.t).(*types.Map); ok {
			return m.mkRType(u.Key())
		}
		bad()
	case "Len":
		if u, ok := under(rt.t).(*types.Array); ok {
			return m.intc(u.Len())
		}
		bad()
	case "Implements":
		ot := a[0].(Iface).v.(RType).t
		it, ok := under(ot).(*types.Interface)
		if !ok {
			bad()
		}
		return m.c.Bool(types.Implements(rt.t, it))
	case "NumMethod":
		return m.intc(int64(m.numMethods(rt.t)))
	case "Comparable":
		return m.c.Bool(types.Comparable(rt.t))
	case "AssignableTo":
		return m.c.Bool(types.AssignableTo(rt.t, a[0].(Iface).v.(RType).t))
	case "ConvertibleTo":
		return m.c.Bool(types.ConvertibleTo(rt.t, a[0].(Iface).v.(RType).t))
	case "Bits":
		if w, _, ok := intInfo(rt.t); ok {
			return m.intc(int64(w))
		}
	case "Size":
		return m.c.Const(64, uint64(m.sizeof(rt.t)))
	}
	panic(m.unsup("reflect.Type.%s", name))
}

// reflectSource are the functions of package reflect that are executed from source.
var reflectSource = map[string]bool{
	"reflect.VisibleFields": true, "(*reflect.visibleFieldsWalker).walk": true, "(reflect.StructField).IsExported": true, "(reflect.Method).IsExported": true,
}

func (m *Machine) numMethods(t types.Type) int {
	ms := types.NewMethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if token.IsExported(ms.At(i).Obj().Name()) {
			n++
		}
	}
	return n
}

func reflectIntrinsics() {
	rv := func(name string, f func(m *Machine, fr *frame, v RValue, a []Value) Value) {
		intrinsics["(reflect.Value)."+name] = func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			v, ok := a[0].(RValue)
			if !ok {
				panic(m.unsup("reflect.Value.%s of %T", name, a[0]))
			}
			return f(m, fr, v, a[1:]), true
		}
	}
	bad := func(m *Machine, name string, v RValue) {
		k := "zero"
		if v.t != nil {
			k = kindNames[kindOf(v.t)]
		}
		m.goPanicRT("reflect: call of reflect.Value." + name + " on " + k + " Value")
	}
	intrinsics["reflect.ValueOf"] = simple(func(m *Machine, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return RValue{}
		}
		return RValue{t: i.t, v: i.v}
	})
	intrinsics["reflect.TypeOf"] = simple(func(m *Machine, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return m.mkRType(i.t)
	})
	intrinsics["reflect.Indirect"] = simple(func(m *Machine, a []Value) Value {
		v := a[0].(RValue)
		if v.t != nil {
			if p, ok := under(v.t).(*types.Pointer); ok {
				if v.v.(Ptr).loc == nil {
					return RValue{}
				}
				return RValue{t: p.Elem(), v: m.load(v.v.(Ptr).loc), ro: v.ro}
			}
		}
		return v
	})
	intrinsics["(reflect.Kind).String"] = simple(func(m *Machine, a []Value) Value {
		return m.strc(kindNames[m.concU(a[0].(*smt.Term))])
	})
	rv("IsValid", func(m *Machine, fr *frame, v RValue, a []Value) Value { return m.c.Bool(v.t != nil) })
	rv("Kind", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil {
			return m.c.Const(64, 0)
		}
		return m.c.Const(64, kindOf(v.t))
	})
	rv("Type", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil {
			bad(m, "Type", v)
		}
		return m.mkRType(v.t)
	})
	rv("CanInterface", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil {
			bad(m, "CanInterface", v)
		}
		return m.c.Bool(!v.ro)
	})
	rv("CanAddr", func(m *Machine, fr *frame, v RValue, a []Value) Value { return m.c.False })
	rv("NumMethod", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil {
			bad(m, "NumMethod", v)
		}
		return m.intc(int64(m.numMethods(v.t)))
	})
	rv("MethodByName", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil || v.fn != nil {
			bad(m, "MethodByName", v)
		}
		name, ok := m.concStr(a[0].(Str))
		if !ok {
			panic(m.unsup("symbolic method name"))
		}
		if !token.IsExported(name) {
			return RValue{}
		}
		sel := types.NewMethodSet(v.t).Lookup(nil, name)
		if sel == nil {
			return RValue{}
		}
		recv := v.v
		rt := v.t
		if _, isI := under(v.t).(*types.Interface); isI {
			iv := v.v.(Iface)
			if iv.t == nil {
				m.goPanicRT("reflect: Method on nil interface value")
			}
			rt, recv = iv.t, iv.v
			sel = types.NewMethodSet(rt).Lookup(nil, name)
		}
		m.P.mu.Lock()
		fn := m.P.Prog.MethodValue(sel)
		m.P.mu.Unlock()
		sig := sel.Type().(*types.Signature)
		return RValue{t: types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()), fn: fn, recv: recv, ro: v.ro}
	})
	rv("Call", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil {
			bad(m, "Call", v)
		}
		sig, ok := under(v.t).(*types.Signature)
		if !ok {
			bad(m, "Call", v)
		}
		if v.ro {
			m.goPanicRT("reflect: reflect.Value.Call using value obtained using unexported field")
		}
		if sig.Variadic() {
			panic(m.unsup("reflect call of variadic function"))
		}
		in := a[0].(SliceV)
		n := int(m.conc(in.len))
		if n != sig.Params().Len() {
			m.goPanicRT("reflect: Call with wrong number of input arguments")
		}
		var args []Value
		if v.fn != nil {
			args = append(args, v.recv)
		}
		for i := 0; i < n; i++ {
			x := m.load(m.elemLoc(in.arr, in.off+i)).(RValue)
			if x.t == nil {
				m.goPanicRT("reflect: Call using zero Value argument")
			}
			pt := sig.Params().At(i).Type()
			if !types.AssignableTo(x.t, pt) {
				m.goPanicRT("reflect: Call using " + typeString(x.t) + " as type " + typeString(pt))
			}
			if types.IsInterface(pt) && !types.IsInterface(x.t) {
				args = append(args, Iface{x.t, x.v})
			} else {
				args = append(args, x.v)
			}
		}
		var res Value
		if v.fn != nil {
			res = m.callFn(fr, v.fn, args, nil)
		} else {
			res = m.call(fr, v.v.(*FuncV), args)
		}
		k := sig.Results().Len()
		arr := m.newArray(m.reflectNamed("Value"), k)
		for i := 0; i < k; i++ {
			x := res
			if k > 1 {
				x = res.(TupleV)[i]
			}
			arr.vals[i] = RValue{t: sig.Results().At(i).Type(), v: x}
		}
		return SliceV{arr: arr, len: m.intc(int64(k)), cap: m.intc(int64(k))}
	})
	rv("NumField", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t != nil {
			if st, ok := under(v.t).(*types.Struct); ok {
				return m.intc(int64(st.NumFields()))
			}
		}
		bad(m, "NumField", v)
		return nil
	})
	rv("Field", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil {
			bad(m, "Field", v)
		}
		st, ok := under(v.t).(*types.Struct)
		if !ok {
			bad(m, "Field", v)
		}
		i := int(m.conc(a[0].(*smt.Term)))
		if i < 0 || i >= st.NumFields() {
			m.goPanicRT("reflect: Field index out of range")
		}
		return RValue{t: st.Field(i).Type(), v: v.v.(StructV)[i], ro: v.ro || !st.Field(i).Exported()}
	})
	rv("FieldByIndex", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		ix := a[0].(SliceV)
		for i, n := 0, int(m.conc(ix.len)); i < n; i++ {
			if v.t == nil {
				bad(m, "Field", v)
			}
			st, ok := under(v.t).(*types.Struct)
			if !ok {
				panic(m.unsup("FieldByIndex through a pointer"))
			}
			k := int(m.conc(m.load(m.elemLoc(ix.arr, ix.off+i)).(*smt.Term)))
			if k < 0 || k >= st.NumFields() {
				m.goPanicRT("reflect: Field index out of range")
			}
			v = RValue{t: st.Field(k).Type(), v: v.v.(StructV)[k], ro: v.ro || !st.Field(k).Exported()}
		}
		return v
	})
	rv("FieldByName", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil {
			bad(m, "FieldByName", v)
		}
		st, ok := under(v.t).(*types.Struct)
		if !ok {
			bad(m, "FieldByName", v)
		}
		name, ok := m.concStr(a[0].(Str))
		if !ok {
			panic(m.unsup("symbolic field name"))
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return RValue{t: st.Field(i).Type(), v: v.v.(StructV)[i], ro: v.ro || !st.Field(i).Exported()}
			}
		}
		return RValue{}
	})
	rv("Int", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t != nil {
			if k := kindOf(v.t); k >= 2 && k <= 6 {
				return m.c.SExt(v.v.(*smt.Term), 64)
			}
		}
		bad(m, "Int", v)
		return nil
	})
	rv("Uint", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t != nil {
			if k := kindOf(v.t); k >= 7 && k <= 12 {
				return m.c.ZExt(v.v.(*smt.Term), 64)
			}
		}
		bad(m, "Uint", v)
		return nil
	})
	rv("Bool", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil || kindOf(v.t) != 1 {
			bad(m, "Bool", v)
		}
		return v.v
	})
	rv("String", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil {
			return m.strc("<invalid Value>")
		}
		if kindOf(v.t) == 24 {
			return v.v
		}
		return m.strc("<" + typeString(v.t) + " Value>")
	})
	rv("Len", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t != nil {
			switch x := v.v.(type) {
			case SliceV:
				return x.len
			case Str:
				return m.intc(int64(x.n))
			case ArrayV:
				return m.intc(int64(len(x)))
			case *MapV:
				if x == nil {
					return m.intc(0)
				}
				return m.intc(int64(x.n))
			}
		}
		bad(m, "Len", v)
		return nil
	})
	rv("Elem", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t != nil {
			switch u := under(v.t).(type) {
			case *types.Interface:
				i := v.v.(Iface)
				if i.t == nil {
					return RValue{}
				}
				return RValue{t: i.t, v: i.v, ro: v.ro}
			case *types.Pointer:
				p := v.v.(Ptr)
				if p.loc == nil {
					return RValue{}
				}
				return RValue{t: u.Elem(), v: m.load(p.loc), ro: v.ro}
			}
		}
		bad(m, "Elem", v)
		return nil
	})
	rv("Interface", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil {
			bad(m, "Interface", v)
		}
		if v.ro {
			m.goPanicRT("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		if i, ok := v.v.(Iface); ok && types.IsInterface(v.t) {
			return i
		}
		if v.fn != nil {
			panic(m.unsup("reflect method value as interface"))
		}
		return Iface{v.t, v.v}
	})
	rv("Index", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil {
			bad(m, "Index", v)
		}
		i := int(m.conc(a[0].(*smt.Term)))
		oob := func(n int) {
			if i < 0 || i >= n {
				m.goPanicRT("reflect: index out of range")
			}
		}
		switch x := v.v.(type) {
		case SliceV:
			oob(int(m.conc(x.len)))
			return RValue{t: under(v.t).(*types.Slice).Elem(), v: m.load(m.elemLoc(x.arr, x.off+i)), ro: v.ro}
		case ArrayV:
			oob(len(x))
			return RValue{t: under(v.t).(*types.Array).Elem(), v: x[i], ro: v.ro}
		case Str:
			oob(x.n)
			return RValue{t: types.Typ[types.Uint8], v: m.sb(x)[i], ro: v.ro}
		}
		bad(m, "Index", v)
		return nil
	})
	rv("IsNil", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t != nil && v.fn == nil {
			switch x := v.v.(type) {
			case Iface:
				return m.c.Bool(x.t == nil)
			case Ptr:
				return m.c.Bool(x.loc == nil)
			case SliceV:
				return m.c.Bool(x.arr == nil)
			case *MapV:
				return m.c.Bool(x == nil)
			case *FuncV:
				return m.c.Bool(x == nil)
			case *ChanV:
				return m.c.Bool(x == nil)
			}
		}
		bad(m, "IsNil", v)
		return nil
	})
	rv("Bytes", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t != nil {
			if x, ok := v.v.(SliceV); ok && kindOf(under(v.t).(*types.Slice).Elem()) == 8 {
				return x
			}
		}
		bad(m, "Bytes", v)
		return nil
	})
	rv("IsZero", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if v.t == nil || v.fn != nil {
			bad(m, "IsZero", v)
		}
		return m.isZero(v.t, v.v)
	})
	rv("CanInt", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		return m.c.Bool(v.t != nil && kindOf(v.t) >= 2 && kindOf(v.t) <= 6)
	})
	rv("CanUint", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		return m.c.Bool(v.t != nil && kindOf(v.t) >= 7 && kindOf(v.t) <= 12)
	})
	rv("CanSet", func(m *Machine, fr *frame, v RValue, a []Value) Value { return m.c.False })
	rv("Cap", func(m *Machine, fr *frame, v RValue, a []Value) Value {
		if x, ok := v.v.(SliceV); ok && v.t != nil {
			return x.cap
		}
		if x, ok := v.v.(ArrayV); ok && v.t != nil {
			return m.intc(int64(len(x)))
		}
		bad(m, "Cap", v)
		return nil
	})
	intrinsics["reflect.DeepEqual"] = simple(func(m *Machine, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return m.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return m.c.False
		}
		return m.deepEq(x.t, x.v, y.v)
	})
}

func (m *Machine) isZero(t types.Type, v Value) *smt.Term {
	c := m.c
	switch x := v.(type) {
	case *smt.Term:
		if x.W == 0 {
			return c.Not(x)
		}
		return c.Eq(x, c.Const(x.W, 0))
	case Str:
		return c.Bool(x.n == 0)
	case Iface:
		return c.Bool(x.t == nil)
	case Ptr:
		return c.Bool(x.loc == nil)
	case SliceV:
		return c.Bool(x.arr == nil)
	case *MapV:
		return c.Bool(x == nil)
	case *FuncV:
		return c.Bool(x == nil)
	case *ChanV:
		return c.Bool(x == nil)
	case StructV:
		st := under(t).(*types.Struct)
		r := c.True
		for i := range x {
			r = c.And(r, m.isZero(st.Field(i).Type(), x[i]))
		}
		return r
	case ArrayV:
		r := c.True
		for _, e := range x {
			r = c.And(r, m.isZero(under(t).(*types.Array).Elem(), e))
		}
		return r
	}
	panic(m.unsup("reflect IsZero of %T", v))
}

func (m *Machine) deepEq(t types.Type, a, b Value) *smt.Term {
	c := m.c
	switch x := a.(type) {
	case StructV:
		st := under(t).(*types.Struct)
		r := c.True
		for i := range x {
			r = c.And(r, m.deepEq(st.Field(i).Type(), x[i], b.(StructV)[i]))
		}
		return r
	case ArrayV:
		r := c.True
		for i := range x {
			r = c.And(r, m.deepEq(under(t).(*types.Array).Elem(), x[i], b.(ArrayV)[i]))
		}
		return r
	case SliceV:
		y := b.(SliceV)
		if (x.arr == nil) != (y.arr == nil) || !m.decide(c.Eq(x.len, y.len)) {
			return c.False
		}
		n := int(m.conc(x.len))
		r := c.True
		for i := 0; i < n && r != c.False; i++ {
			r = c.And(r, m.deepEq(under(t).(*types.Slice).Elem(), m.load(m.elemLoc(x.arr, x.off+i)), m.load(m.elemLoc(y.arr, y.off+i))))
		}
		return r
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		return m.deepEq(x.t, x.v, y.v)
	case *FuncV:
		return c.Bool(x == nil && b.(*FuncV) == nil)
	case Ptr:
		y := b.(Ptr)
		if x == y {
			return c.True
		}
		if x.loc == nil || y.loc == nil {
			return c.False
		}
		panic(m.unsup("reflect.DeepEqual of pointers"))
	case *MapV:
		panic(m.unsup("reflect.DeepEqual of maps"))
	}
	return m.eq(t, a, b)
}
