package sx

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// intrinsic returns ok == false to fall back to the source body.
type intrinsic func(m *Machine, fr *frame, fn *ssa.Function, args []Value) (Value, bool)

const zz = "github.com/alexispb/mygosnmp/internal/zzverif."

// Thorough is the value of zzverif.Thorough in this run.
var Thorough bool

var intrinsics map[string]intrinsic

func lookupIntrinsic(name string) intrinsic { return intrinsics[name] }

// IntrinsicNames lists replaced functions (part of every claim).
func IntrinsicNames() []string {
	var r []string
	for k := range intrinsics {
		if !strings.HasPrefix(k, zz) {
			r = append(r, k)
		}
	}
	return r
}

func simple(f func(m *Machine, a []Value) Value) intrinsic {
	return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) { return f(m, a), true }
}

// caseModel maps the letters lo..hi to the other case; text that may not be ASCII runs the real code.
func caseModel(lo, hi uint64, str bool) intrinsic {
	return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
		var b []*smt.Term
		if str {
			b = m.sb(a[0].(Str))
		} else {
			b = m.sliceTerms(a[0].(SliceV))
		}
		r := make([]*smt.Term, len(b))
		for i, x := range b {
			if !m.decide(m.c.Cmp(smt.OpULt, x, m.c.Const(8, 128))) {
				return nil, false
			}
			in := m.c.And(m.c.Cmp(smt.OpULe, m.c.Const(8, lo), x), m.c.Cmp(smt.OpULe, x, m.c.Const(8, hi)))
			r[i] = m.c.Ite(in, m.c.Bin(smt.OpBvXor, x, m.c.Const(8, 32)), x)
		}
		if str {
			return m.mkStr(r), true
		}
		return m.appendV(types.Typ[types.Uint8], SliceV{len: m.intc(0), cap: m.intc(0)}, m.mkStr(r)), true
	}
}

func nondet(w uint8) intrinsic {
	return simple(func(m *Machine, a []Value) Value {
		t := m.fresh(w)
		m.inputs = append(m.inputs, Nondet{t})
		return t
	})
}

func init() {
	intrinsics = map[string]intrinsic{
		zz + "U8":   nondet(8),
		zz + "U16":  nondet(16),
		zz + "U32":  nondet(32),
		zz + "U64":  nondet(64),
		zz + "Bool": nondet(0),
		zz + "Choice": simple(func(m *Machine, a []Value) Value {
			n := int(m.conc(a[0].(*smt.Term)))
			v := m.intc(int64(m.choice(n)))
			m.inputs = append(m.inputs, Nondet{v})
			return v
		}),
		zz + "Concrete": simple(func(m *Machine, a []Value) Value {
			return m.c.Const(64, m.concU(a[0].(*smt.Term)))
		}),
		zz + "Assume": simple(func(m *Machine, a []Value) Value { m.assume(a[0].(*smt.Term)); return nil }),
		zz + "Assert": simple(func(m *Machine, a []Value) Value {
			l, _ := m.concStr(a[1].(Str))
			m.assertT(a[0].(*smt.Term), l)
			return nil
		}),
		zz + "Cover": simple(func(m *Machine, a []Value) Value {
			l, _ := m.concStr(a[0].(Str))
			m.covered[l] = true
			return nil
		}),
		zz + "Observe": simple(func(m *Machine, a []Value) Value {
			l, _ := m.concStr(a[0].(Str))
			m.obs = append(m.obs, obs{l, m.sliceTerms(a[1].(SliceV))})
			return nil
		}),
		zz + "ObserveU": simple(func(m *Machine, a []Value) Value {
			l, _ := m.concStr(a[0].(Str))
			t := a[1].(*smt.Term)
			var b []*smt.Term
			for i := 7; i >= 0; i-- {
				b = append(b, m.c.Extract(t, uint8(i*8+7), uint8(i*8)))
			}
			m.obs = append(m.obs, obs{l, b})
			return nil
		}),
		zz + "And": simple(func(m *Machine, a []Value) Value {
			r := m.c.True
			for _, t := range m.sliceTerms(a[0].(SliceV)) {
				r = m.c.And(r, t)
			}
			return r
		}),
		zz + "Or": simple(func(m *Machine, a []Value) Value {
			r := m.c.False
			for _, t := range m.sliceTerms(a[0].(SliceV)) {
				r = m.c.Or(r, t)
			}
			return r
		}),
		zz + "Sure": simple(func(m *Machine, a []Value) Value {
			return m.c.Bool(a[0].(*smt.Term) == m.c.True)
		}),
		zz + "IteU32": simple(func(m *Machine, a []Value) Value {
			return m.c.Ite(a[0].(*smt.Term), a[1].(*smt.Term), a[2].(*smt.Term))
		}),
		zz + "IteU8": simple(func(m *Machine, a []Value) Value {
			return m.c.Ite(a[0].(*smt.Term), a[1].(*smt.Term), a[2].(*smt.Term))
		}),
		zz + "EqBytes": simple(func(m *Machine, a []Value) Value { return m.eqSlices(a[0].(SliceV), a[1].(SliceV)) }),
		zz + "EqU32s":  simple(func(m *Machine, a []Value) Value { return m.eqSlices(a[0].(SliceV), a[1].(SliceV)) }),
		zz + "EqStr":   simple(func(m *Machine, a []Value) Value { return m.strEq(a[0].(Str), a[1].(Str)) }),
		zz + "Dec": simple(func(m *Machine, a []Value) Value {
			return m.mkStr(m.decStr(a[0].(*smt.Term)))
		}),
		zz + "OpaqueFormatting": simple(func(m *Machine, a []Value) Value {
			m.opaqueFmt = a[0].(*smt.Term).Val == 1
			return nil
		}),
		zz + "Thorough":   simple(func(m *Machine, a []Value) Value { return m.c.Bool(Thorough) }),
		zz + "Steps":      simple(func(m *Machine, a []Value) Value { return m.c.Const(64, uint64(m.steps)) }),
		zz + "Scaled":     simple(func(m *Machine, a []Value) Value { return a[0] }),
		zz + "AllocBytes": simple(func(m *Machine, a []Value) Value { return m.allocs }),
		zz + "Symbolic":   simple(func(m *Machine, a []Value) Value { return m.c.True }),
		zz + "Share": simple(func(m *Machine, a []Value) Value {
			m.markShared(a[0])
			return nil
		}),
		zz + "Interleave": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			ops := a[0].(SliceV)
			n := int(m.conc(ops.len))
			m.ilv, m.points, m.touched, m.ilvBase = nil, 0, false, 0
			for i := 0; i < n; i++ {
				m.ilv = append(m.ilv, m.load(m.elemLoc(ops.arr, ops.off+i)).(*FuncV))
			}
			for len(m.ilv) > 0 {
				m.runWaiting(fr)
			}
			return nil, true
		},
		zz + "Queued": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			m.queued = true
			m.call(fr, a[0].(*FuncV), nil)
			m.queued = false
			return nil, true
		},
		zz + "Exits": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (v Value, done bool) {
			depth, cur := m.depth, m.curFn
			v, done = m.c.True, true
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(*targetPanic); !ok || !tp.exit {
						panic(r)
					}
					m.depth, m.curFn = depth, cur
				}
			}()
			m.call(fr, a[0].(*FuncV), nil)
			return m.c.False, true
		},
		"runtime.Goexit": simple(func(m *Machine, a []Value) Value {
			panic(&targetPanic{exit: true, v: Iface{}, pos: m.where()})
		}),
		zz + "Parallel": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			l, _ := m.concStr(a[0].(Str))
			ops := a[1].(SliceV)
			n := int(m.conc(ops.len))
			m.watch = map[Loc]*watchEnt{}
			for i := 0; i < n; i++ {
				m.watchOp = i
				m.watchOn = true
				m.call(fr, m.load(m.elemLoc(ops.arr, ops.off+i)).(*FuncV), nil)
				m.watchOn = false
			}
			var bad string
			for _, w := range m.watchOrder {
				if w.written && len(w.ops) > 1 && len(w.locks) == 0 {
					bad = w.site
					break
				}
			}
			m.Asserts++
			if bad != "" && !m.replaying() {
				m.fail("race", l+": unsynchronised "+bad)
			}
			m.Proved++
			return nil, true
		},

		// formatting
		"strconv.FormatUint": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			if t := a[1].(*smt.Term); !t.IsConst() || t.Val != 10 {
				return nil, false
			}
			return m.mkStr(m.decStr(a[0].(*smt.Term))), true
		},
		"strconv.FormatInt": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			if t := a[1].(*smt.Term); !t.IsConst() || t.Val != 10 {
				return nil, false
			}
			return m.mkStr(m.sdecStr(a[0].(*smt.Term))), true
		},
		"strconv.Itoa": simple(func(m *Machine, a []Value) Value { return m.mkStr(m.sdecStr(a[0].(*smt.Term))) }),
		"strconv.AppendUint": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			if t := a[2].(*smt.Term); !t.IsConst() || t.Val != 10 {
				return nil, false
			}
			return m.appendV(types.Typ[types.Uint8], a[0].(SliceV), m.mkStr(m.decStr(a[1].(*smt.Term)))), true
		},
		"strconv.AppendInt": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			if t := a[2].(*smt.Term); !t.IsConst() || t.Val != 10 {
				return nil, false
			}
			return m.appendV(types.Typ[types.Uint8], a[0].(SliceV), m.mkStr(m.sdecStr(a[1].(*smt.Term)))), true
		},
		"strconv.ParseUint": parseUintModel,
		"strconv.Quote": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			if _, ok := m.concStr(a[0].(Str)); ok {
				return nil, false
			}
			return m.strc("\"...\""), true // text of error messages only
		},
		"fmt.Sprintf": simple(func(m *Machine, a []Value) Value { return m.mkStr(m.sprintf(a[0].(Str), a[1].(SliceV))) }),
		"fmt.Sprint":  simple(func(m *Machine, a []Value) Value { return m.mkStr(m.sprint(a[0].(SliceV), false)) }),
		"fmt.Sprintln": simple(func(m *Machine, a []Value) Value {
			return m.mkStr(append(m.sprint(a[0].(SliceV), true), m.c.Const(8, '\n')))
		}),
		"fmt.Errorf": simple(func(m *Machine, a []Value) Value {
			return m.errorValue(m.mkStr(m.sprintf(a[0].(Str), a[1].(SliceV))))
		}),
		"fmt.Fprintf": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			return m.fprint(fr, a[0], m.sprintf(a[1].(Str), a[2].(SliceV))), true
		},
		"fmt.Fprint": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			return m.fprint(fr, a[0], m.sprint(a[1].(SliceV), false)), true
		},
		"fmt.Fprintln": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			return m.fprint(fr, a[0], append(m.sprint(a[1].(SliceV), true), m.c.Const(8, '\n'))), true
		},
		"fmt.Printf": simple(func(m *Machine, a []Value) Value { return m.print(m.sprintf(a[0].(Str), a[1].(SliceV))) }),
		"fmt.Println": simple(func(m *Machine, a []Value) Value {
			return m.print(append(m.sprint(a[0].(SliceV), true), m.c.Const(8, '\n')))
		}),
		"fmt.Print":              simple(func(m *Machine, a []Value) Value { return m.print(m.sprint(a[0].(SliceV), false)) }),
		"(*os.File).Write":       simple(func(m *Machine, a []Value) Value { return m.print(m.sliceTerms(a[1].(SliceV))) }),
		"(*os.File).WriteString": simple(func(m *Machine, a []Value) Value { return m.print(m.sb(a[1].(Str))) }),
		zz + "Stdout": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			k := len(m.stdout)
			m.call(fr, a[0].(*FuncV), nil)
			return m.mkStr(append([]*smt.Term(nil), m.stdout[k:]...)), true
		},
		"fmt.Append": simple(func(m *Machine, a []Value) Value {
			return m.appendV(types.Typ[types.Uint8], a[0].(SliceV), m.mkStr(m.sprint(a[1].(SliceV), false)))
		}),
		"fmt.Appendf": simple(func(m *Machine, a []Value) Value {
			return m.appendV(types.Typ[types.Uint8], a[0].(SliceV), m.mkStr(m.sprintf(a[1].(Str), a[2].(SliceV))))
		}),

		// bytealg
		"internal/bytealg.IndexByte":       simple(func(m *Machine, a []Value) Value { return m.indexByte(m.sliceTerms(a[0].(SliceV)), a[1].(*smt.Term)) }),
		"internal/bytealg.IndexByteString": simple(func(m *Machine, a []Value) Value { return m.indexByte(m.sb(a[0].(Str)), a[1].(*smt.Term)) }),
		"internal/bytealg.Count":           simple(func(m *Machine, a []Value) Value { return m.countByte(m.sliceTerms(a[0].(SliceV)), a[1].(*smt.Term)) }),
		"internal/bytealg.CountString":     simple(func(m *Machine, a []Value) Value { return m.countByte(m.sb(a[0].(Str)), a[1].(*smt.Term)) }),
		"internal/bytealg.Equal":           simple(func(m *Machine, a []Value) Value { return m.eqSlices(a[0].(SliceV), a[1].(SliceV)) }),
		"bytes.Equal":                      simple(func(m *Machine, a []Value) Value { return m.eqSlices(a[0].(SliceV), a[1].(SliceV)) }),
		"internal/bytealg.Compare": simple(func(m *Machine, a []Value) Value {
			return m.cmpStr(m.mkStr(m.sliceTerms(a[0].(SliceV))), m.mkStr(m.sliceTerms(a[1].(SliceV))))
		}),
		"internal/bytealg.CompareString": simple(func(m *Machine, a []Value) Value { return m.cmpStr(a[0].(Str), a[1].(Str)) }),
		"runtime.cmpstring":              simple(func(m *Machine, a []Value) Value { return m.cmpStr(a[0].(Str), a[1].(Str)) }),
		"internal/bytealg.MakeNoZero": simple(func(m *Machine, a []Value) Value {
			n := a[0].(*smt.Term)
			cp := n
			if n.IsConst() {
				cp = m.c.Const(64, roundupsize(n.Val, true))
			}
			s := m.makeSlice(types.Typ[types.Uint8], n, cp).(SliceV)
			return s
		}),
		"internal/bytealg.IndexString": simple(func(m *Machine, a []Value) Value { return m.indexStr(m.sb(a[0].(Str)), m.sb(a[1].(Str))) }),
		"internal/bytealg.Index": simple(func(m *Machine, a []Value) Value {
			return m.indexStr(m.sliceTerms(a[0].(SliceV)), m.sliceTerms(a[1].(SliceV)))
		}),

		"slices.overlaps": simple(func(m *Machine, a []Value) Value {
			x, y := a[0].(SliceV), a[1].(SliceV)
			if x.arr == nil || x.arr != y.arr {
				return m.c.False
			}
			nx, ny := int(m.conc(x.len)), int(m.conc(y.len))
			return m.c.Bool(nx > 0 && ny > 0 && x.off < y.off+ny && y.off < x.off+nx)
		}),
		"strings.ToUpper": caseModel('a', 'z', true),
		"strings.ToLower": caseModel('A', 'Z', true),
		"bytes.ToUpper":   caseModel('a', 'z', false),
		"bytes.ToLower":   caseModel('A', 'Z', false),

		"internal/abi.NoEscape": simple(func(m *Machine, a []Value) Value { return a[0] }),
		"internal/abi.Escape":   simple(func(m *Machine, a []Value) Value { return a[0] }),
		"strings.noescape":      simple(func(m *Machine, a []Value) Value { return a[0] }),
		"runtime.KeepAlive":     simple(func(m *Machine, a []Value) Value { return nil }),
		"runtime.GC":            simple(func(m *Machine, a []Value) Value { return nil }),
		"runtime.Gosched":       simple(func(m *Machine, a []Value) Value { return nil }),

		// locks
		"(*sync.Mutex).Lock":       lockWith(true),
		"(*sync.Mutex).Unlock":     unlockWith(true),
		"(*sync.Mutex).TryLock":    tryLockWith(true),
		"(*sync.RWMutex).Lock":     lockWith(true),
		"(*sync.RWMutex).Unlock":   unlockWith(true),
		"(*sync.RWMutex).RLock":    lockWith(false),
		"(*sync.RWMutex).RUnlock":  unlockWith(false),
		"(*sync.RWMutex).TryLock":  tryLockWith(true),
		"(*sync.RWMutex).TryRLock": tryLockWith(false),
		"(*sync.Once).Do": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			l := a[0].(Ptr).loc
			if !m.onces[l] {
				m.onces[l] = true
				on := m.watchOn
				m.watchOn = false
				defer func() { m.watchOn = on }()
				m.call(fr, a[1].(*FuncV), nil)
			}
			return nil, true
		},
		"(*sync.Pool).Get": func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			p := a[0].(Ptr)
			if p.loc == nil {
				m.goPanicRT("invalid memory address or nil pointer dereference")
			}
			if st := m.pools[p.loc]; len(st) > 0 {
				v := st[len(st)-1]
				m.pools[p.loc] = st[:len(st)-1]
				return v, true
			}
			sl := p.loc.(*StructLoc)
			st := under(sl.t).(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "New" {
					on := m.watchOn
					m.watchOn = false
					f := m.load(sl.f[i]).(*FuncV)
					m.watchOn = on
					if f == nil {
						return Iface{}, true
					}
					return m.call(fr, f, nil), true
				}
			}
			return Iface{}, true
		},
		"(*sync.Pool).Put": simple(func(m *Machine, a []Value) Value {
			p := a[0].(Ptr)
			if i, ok := a[1].(Iface); ok && i.t == nil {
				return nil
			}
			m.pools[p.loc] = append(m.pools[p.loc], a[1])
			return nil
		}),

		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+ty] = atomicOp(func(m *Machine, a []Value) Value {
			return m.load(a[0].(Ptr).loc)
		})
		intrinsics["sync/atomic.Store"+ty] = atomicOp(func(m *Machine, a []Value) Value {
			m.store(a[0].(Ptr).loc, a[1])
			return nil
		})
		intrinsics["sync/atomic.Swap"+ty] = atomicOp(func(m *Machine, a []Value) Value {
			l := a[0].(Ptr).loc
			o := m.load(l)
			m.store(l, a[1])
			return o
		})
		intrinsics["sync/atomic.CompareAndSwap"+ty] = atomicOp(func(m *Machine, a []Value) Value {
			l := a[0].(Ptr).loc
			o := m.load(l)
			if m.decide(m.eq(nil, o, a[1])) {
				m.store(l, a[2])
				return m.c.True
			}
			return m.c.False
		})
		if ty != "Pointer" {
			intrinsics["sync/atomic.Add"+ty] = atomicOp(func(m *Machine, a []Value) Value {
				l := a[0].(Ptr).loc
				v := m.c.Bin(smt.OpAdd, m.load(l).(*smt.Term), a[1].(*smt.Term))
				m.store(l, v)
				return v
			})
		}
	}
	reflectIntrinsics()
}

func (m *Machine) unwatched() func() {
	on := m.watchOn
	m.watchOn = false
	return func() { m.watchOn = on }
}

func sortSlice(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
	iv := a[0].(Iface)
	s, ok := iv.v.(SliceV)
	if !ok {
		panic(m.unsup("sort.Slice of %T", iv.v))
	}
	less := a[1].(*FuncV)
	n := int(m.conc(s.len))
	lt := func(i, j int) bool {
		return m.decide(m.call(fr, less, []Value{m.intc(int64(i)), m.intc(int64(j))}).(*smt.Term))
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0 && lt(j, j-1); j-- {
			x, y := m.elemLoc(s.arr, s.off+j), m.elemLoc(s.arr, s.off+j-1)
			vx, vy := m.load(x), m.load(y)
			m.store(x, vy)
			m.store(y, vx)
		}
	}
	return nil, true
}

func (m *Machine) sliceTerms(s SliceV) []*smt.Term {
	n := int(m.conc(s.len))
	m.steps += n / 8
	r := make([]*smt.Term, n)
	for i := range r {
		r[i] = m.load(m.elemLoc(s.arr, s.off+i)).(*smt.Term)
	}
	return r
}

func (m *Machine) eqSlices(a, b SliceV) *smt.Term {
	x, y := m.sliceTerms(a), m.sliceTerms(b)
	if len(x) != len(y) {
		return m.c.False
	}
	r := m.c.True
	for i := range x {
		r = m.c.And(r, m.c.Eq(x[i], y[i]))
	}
	return r
}

func (m *Machine) indexByte(b []*smt.Term, x *smt.Term) Value {
	for i, t := range b {
		if m.decide(m.c.Eq(t, x)) {
			return m.intc(int64(i))
		}
	}
	return m.intc(-1)
}

func (m *Machine) countByte(b []*smt.Term, x *smt.Term) Value {
	n := 0
	for _, t := range b {
		if m.decide(m.c.Eq(t, x)) {
			n++
		}
	}
	return m.intc(int64(n))
}

func (m *Machine) indexStr(s, sep []*smt.Term) Value {
	for i := 0; i+len(sep) <= len(s); i++ {
		if m.decide(m.strEq(m.mkStr(s[i:i+len(sep)]), m.mkStr(sep))) {
			return m.intc(int64(i))
		}
	}
	return m.intc(-1)
}

func (m *Machine) cmpStr(a, b Str) Value {
	return m.c.Ite(m.strEq(a, b), m.intc(0), m.c.Ite(m.strLess(a, b), m.intc(-1), m.intc(1)))
}

// ---- locks

func (m *Machine) lock(p Value, write bool) {
	l := p.(Ptr).loc
	if l == nil {
		m.goPanicRT("invalid memory address or nil pointer dereference")
	}
	st := m.locks[l]
	if st == nil {
		st = &lockState{}
		m.locks[l] = st
	}
	for _, h := range m.held[:min(m.ilvBase, len(m.held))] {
		if h.l == l && (write || h.write) {
			panic(pathEnd{AssumeFail, ""}) // waits for the interrupted operation
		}
	}
	if st.writer || (write && st.readers > 0) || m.queued && st.readers > 0 {
		if m.replaying() {
			panic(pathEnd{Aborted, "deadlock during replay"})
		}
		m.fail("deadlock", "lock acquired while an earlier operation still holds it"+m.where())
	}
	m.locked[l]++
	if write {
		st.writer = true
	} else {
		st.readers++
	}
	m.held = append(m.held, heldLock{l, write})
}

// runWaiting runs the first of the operations waiting in zzverif.Interleave.
func (m *Machine) runWaiting(fr *frame) {
	g := m.ilv[0]
	m.ilv = append([]*FuncV(nil), m.ilv[1:]...)
	base := m.ilvBase
	m.ilvBase = len(m.held)
	m.call(fr, g, nil)
	m.ilvBase = base
}

// anyWaiting runs none, one or more of the waiting operations.
func (m *Machine) anyWaiting(fr *frame) {
	for len(m.ilv) > 0 && m.switchHere() {
		m.runWaiting(fr)
	}
}

// maxPoints is how many atomic operations per path are possible switches (zsync.MaxPoints).
const maxPoints = 12

// point is where an operation waiting in zzverif.Interleave may run: before an atomic operation.
func (m *Machine) point(fr *frame) {
	if m.ilv == nil || m.points == maxPoints {
		return
	}
	m.points++
	m.anyWaiting(fr)
	m.touched = len(m.held) == 0
}

// lockWith takes a lock; between an atomic operation and that other operations may run.
func lockWith(write bool) intrinsic {
	return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
		if m.touched && len(m.held) == 0 && m.ilv != nil {
			m.touched = false
			m.anyWaiting(fr)
		}
		m.lock(a[0], write)
		return nil, true
	}
}

func atomicOp(f func(m *Machine, a []Value) Value) intrinsic {
	return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
		m.point(fr)
		defer m.unwatched()()
		return f(m, a), true
	}
}

// unlockWith releases a lock; when none is held any more, operations waiting in
// zzverif.Interleave may run here.
func unlockWith(write bool) func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
	return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
		m.unlock(a[0], write)
		if m.ilv != nil && len(m.held) == 0 {
			m.touched = false
			m.anyWaiting(fr)
		}
		return nil, true
	}
}

func (m *Machine) switchHere() bool {
	v := m.choice(2)
	m.inputs = append(m.inputs, Nondet{m.intc(int64(v))})
	return v == 1
}

// tryLockWith tries to take a lock; it may fail because an operation waiting in
// zzverif.Interleave holds it at this moment, which then finishes before anything else happens.
func tryLockWith(write bool) func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
	return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
		l := a[0].(Ptr).loc
		st := m.locks[l]
		if st != nil && (st.writer || (write && st.readers > 0)) {
			return m.c.False, true
		}
		if len(m.ilv) > 0 && len(m.held) == 0 && m.switchHere() {
			k := m.locked[l]
			m.runWaiting(fr)
			if m.locked[l] == k {
				panic(pathEnd{AssumeFail, ""})
			}
			return m.c.False, true
		}
		m.lock(a[0], write)
		return m.c.True, true
	}
}

func (m *Machine) unlock(p Value, write bool) {
	l := p.(Ptr).loc
	st := m.locks[l]
	if st == nil || (write && !st.writer) || (!write && st.readers == 0) {
		if m.replaying() {
			panic(pathEnd{Aborted, "unlock during replay"})
		}
		m.fail("panic", "unlock of unlocked mutex"+m.where())
	}
	if write {
		st.writer = false
	} else {
		st.readers--
	}
	for i := len(m.held) - 1; i >= 0; i-- {
		if m.held[i].l == l && m.held[i].write == write {
			m.held = append(m.held[:i:i], m.held[i+1:]...)
			break
		}
	}
}

// ---- decimal and fmt

var pow10 = func() []uint64 {
	r := []uint64{1}
	for i := 1; i < 20; i++ {
		r = append(r, r[i-1]*10)
	}
	return r
}()

func (m *Machine) constStr(s string) []*smt.Term { return m.strc(s).b }

// decStr is the unsigned decimal text of t.
func (m *Machine) decStr(t *smt.Term) []*smt.Term {
	if t.IsConst() {
		return m.constStr(strconv.FormatUint(t.Val, 10))
	}
	if m.opaqueFmt {
		return m.constStr("4294967295")
	}
	if t.W < 64 {
		t = m.c.ZExt(t, 64)
	}
	if r, ok := m.decs[t]; ok {
		return r
	}
	k := 1
	for ; k < 20; k++ {
		if m.decide(m.c.Cmp(smt.OpULt, t, m.c.Const(64, pow10[k]))) {
			break
		}
	}
	v := m.c.Eval(t)
	md := make(map[string]uint64, len(m.model)+k)
	for n, x := range m.model {
		md[n] = x
	}
	digs := make([]*smt.Term, k)
	ds := strconv.FormatUint(v, 10)
	for len(ds) < k {
		ds = "0" + ds
	}
	for i := range digs {
		name := fmt.Sprintf("d%d_%d_8", len(m.decs), i)
		digs[i] = m.c.Var(name, 8)
		md[name] = uint64(ds[i] - '0')
	}
	m.setModel(md)
	h := m.c.Const(64, 0)
	for _, d := range digs {
		m.push(m.c.Cmp(smt.OpULt, d, m.c.Const(8, 10)))
		h = m.c.Bin(smt.OpAdd, m.c.Bin(smt.OpMul, h, m.c.Const(64, 10)), m.c.ZExt(d, 64))
	}
	if k > 1 {
		m.push(m.c.Not(m.c.Eq(digs[0], m.c.Const(8, 0))))
	}
	eq := m.c.Eq(h, t)
	m.push(eq)
	if k == 20 { // 20-digit Horner may wrap: pin the leading digit
		m.push(m.c.Eq(digs[0], m.c.Const(8, 1)))
	}
	r := make([]*smt.Term, k)
	for i, d := range digs {
		r[i] = m.c.Bin(smt.OpAdd, d, m.c.Const(8, '0'))
	}
	m.decs[t] = r
	key := ""
	for _, x := range r {
		key += fmt.Sprintf("%p.", x)
	}
	m.decOf[key] = t
	return r
}

// parseUintModel reads decimal text without forking per character: one decision whether
// it is all digits, one (in lexicographic form) whether the number is in range.
func parseUintModel(m *Machine, fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
	s := a[0].(Str)
	base, bits := a[1].(*smt.Term), a[2].(*smt.Term)
	if _, ok := m.concStr(s); ok || !base.IsConst() || base.Val != 10 || !bits.IsConst() {
		return nil, false
	}
	var max uint64
	switch bits.Val {
	case 0, 64:
		max = ^uint64(0)
	case 8, 16, 32:
		max = 1<<bits.Val - 1
	default:
		return nil, false
	}
	b := m.sb(s)
	if len(b) == 0 {
		return nil, false
	}
	bad := func(v uint64, msg string) (Value, bool) {
		return TupleV{m.c.Const(64, v), m.errorValue(m.strc("strconv.ParseUint: parsing \"...\": " + msg))}, true
	}
	key := ""
	for _, t := range b {
		key += fmt.Sprintf("%p.", t)
	}
	if t, ok := m.decOf[key]; ok {
		if max != ^uint64(0) && m.decide(m.c.Cmp(smt.OpULt, m.c.Const(64, max), t)) {
			return bad(max, "value out of range")
		}
		return TupleV{t, Iface{}}, true
	}
	all := m.c.True
	for _, t := range b {
		d := m.c.Bin(smt.OpSub, t, m.c.Const(8, '0'))
		all = m.c.And(all, m.c.Cmp(smt.OpULt, d, m.c.Const(8, 10)))
	}
	if !m.decide(all) {
		return bad(0, "invalid syntax")
	}
	ms := strconv.FormatUint(max, 10)
	over := m.c.False
	tail := b
	if len(b) >= len(ms) {
		tail = b[len(b)-len(ms):]
		gt := m.c.False
		for i := len(ms) - 1; i >= 0; i-- {
			k := m.c.Const(8, uint64(ms[i]))
			gt = m.c.Or(m.c.Cmp(smt.OpULt, k, tail[i]), m.c.And(m.c.Eq(tail[i], k), gt))
		}
		over = gt
		for _, t := range b[:len(b)-len(ms)] {
			over = m.c.Or(over, m.c.Not(m.c.Eq(t, m.c.Const(8, '0'))))
		}
	}
	if m.decide(over) {
		return bad(max, "value out of range")
	}
	v := m.c.Const(64, 0)
	for _, t := range tail {
		d := m.c.Bin(smt.OpSub, t, m.c.Const(8, '0'))
		v = m.c.Bin(smt.OpAdd, m.c.Bin(smt.OpMul, v, m.c.Const(64, 10)), m.c.ZExt(d, 64))
	}
	return TupleV{v, Iface{}}, true
}

func (m *Machine) sdecStr(t *smt.Term) []*smt.Term {
	if t.IsConst() {
		return m.constStr(strconv.FormatInt(t.SVal(), 10))
	}
	t = m.c.SExt(t, 64)
	if m.opaqueFmt {
		return m.constStr("-2147483648")
	}
	if !nonNeg(t) && m.decide(m.c.Cmp(smt.OpSLt, t, m.c.Const(64, 0))) {
		return append(m.constStr("-"), m.decStr(m.c.Neg(t))...)
	}
	return m.decStr(t)
}

func (m *Machine) errorValue(s Str) Value {
	ep := m.P.Prog.ImportedPackage("errors")
	if ep == nil {
		panic(m.unsup("errors package not loaded"))
	}
	t := ep.Type("errorString").Type()
	l := m.newLoc(t)
	m.store(l.(*StructLoc).f[0], s)
	return Iface{types.NewPointer(t), Ptr{l}}
}

// print is output on standard output (or any other file).
func (m *Machine) print(b []*smt.Term) Value {
	m.stdout = append(m.stdout, b...)
	return TupleV{m.intc(int64(len(b))), Iface{}}
}

func (m *Machine) fprint(fr *frame, w Value, b []*smt.Term) Value {
	iv := w.(Iface)
	if iv.t == nil {
		m.goPanicRT("invalid memory address or nil pointer dereference")
	}
	a := m.newArray(types.Typ[types.Uint8], len(b))
	for i := range b {
		a.vals[i] = b[i]
	}
	n := m.intc(int64(len(b)))
	m.P.mu.Lock()
	f := m.P.Prog.LookupMethod(iv.t, nil, "Write")
	m.P.mu.Unlock()
	if f == nil {
		panic(m.unsup("no Write method on %s", iv.t))
	}
	return m.callFn(fr, f, []Value{iv.v, SliceV{arr: a, len: n, cap: n}}, nil)
}

func (m *Machine) ifaces(s SliceV) []Iface {
	n := int(m.conc(s.len))
	r := make([]Iface, n)
	for i := range r {
		r[i] = m.load(m.elemLoc(s.arr, s.off+i)).(Iface)
	}
	return r
}

func (m *Machine) sprint(s SliceV, ln bool) []*smt.Term {
	var r []*smt.Term
	prevStr := true
	for i, a := range m.ifaces(s) {
		_, isStr := a.v.(Str)
		if i > 0 && (ln || (!isStr && !prevStr)) {
			r = append(r, m.c.Const(8, ' '))
		}
		prevStr = isStr
		r = append(r, m.fmtArg('v', a, fmtFlags{width: -1, prec: -1}, 0)...)
	}
	return r
}

type fmtFlags struct {
	zero, minus, plus, sharp, space bool
	width, prec                     int
}

// symFormat decides where the verbs of a format with symbolic bytes are; any other byte is 'x'.
func (m *Machine) symFormat(b []*smt.Term) string {
	fs := make([]byte, len(b))
	verb := false
	for i, t := range b {
		switch {
		case verb:
			fs[i] = byte(m.concU(t))
			if fs[i] >= 0x80 {
				panic(m.unsup("fmt verb beyond ASCII"))
			}
			verb = strings.IndexByte("0123456789-+# .*[", fs[i]) >= 0
		case m.decide(m.c.Eq(t, m.c.Const(8, '%'))):
			fs[i], verb = '%', true
		default:
			fs[i] = 'x'
		}
	}
	return string(fs)
}

func (m *Machine) sprintf(f Str, s SliceV) []*smt.Term {
	fs, ok := m.concStr(f)
	lit := m.sb(f)
	if !ok {
		if m.opaqueFmt {
			return m.constStr("?")
		}
		fs = m.symFormat(lit)
	}
	args := m.ifaces(s)
	var r []*smt.Term
	ai := 0
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			r = append(r, lit[i])
			i++
			continue
		}
		i++
		fl := fmtFlags{width: -1, prec: -1}
		for i < len(fs) && strings.IndexByte("0-+# ", fs[i]) >= 0 {
			switch fs[i] {
			case '0':
				fl.zero = true
			case '-':
				fl.minus = true
			case '+':
				fl.plus = true
			case '#':
				fl.sharp = true
			case ' ':
				fl.space = true
			}
			i++
		}
		star := func() int {
			if ai < len(args) {
				if t, ok := args[ai].v.(*smt.Term); ok && t.W > 0 {
					ai++
					return int(m.conc(t))
				}
			}
			ai++
			return 0
		}
		if i < len(fs) && fs[i] == '*' {
			fl.width = star()
			i++
		} else {
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				if fl.width < 0 {
					fl.width = 0
				}
				fl.width = fl.width*10 + int(fs[i]-'0')
				i++
			}
		}
		if i < len(fs) && fs[i] == '.' {
			i++
			fl.prec = 0
			if i < len(fs) && fs[i] == '*' {
				fl.prec = star()
				i++
			} else {
				for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
					fl.prec = fl.prec*10 + int(fs[i]-'0')
					i++
				}
			}
		}
		if i >= len(fs) {
			r = append(r, m.constStr("%!(NOVERB)")...)
			break
		}
		verb := fs[i]
		i++
		if verb == '%' {
			r = append(r, m.c.Const(8, '%'))
			continue
		}
		if ai >= len(args) {
			r = append(r, m.constStr("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		r = append(r, m.fmtArg(verb, args[ai], fl, 0)...)
		ai++
	}
	if ai < len(args) {
		r = append(r, m.constStr("%!(EXTRA )")...)
	}
	return r
}

func (m *Machine) pad(b []*smt.Term, fl fmtFlags, zeroOK bool) []*smt.Term {
	if fl.width <= len(b) {
		return b
	}
	n := fl.width - len(b)
	ch := uint64(' ')
	if fl.zero && !fl.minus && zeroOK {
		ch = '0'
	}
	p := make([]*smt.Term, n)
	for i := range p {
		p[i] = m.c.Const(8, ch)
	}
	if fl.minus {
		return append(append([]*smt.Term{}, b...), p...)
	}
	if ch == '0' && len(b) > 0 && b[0].IsConst() && (b[0].Val == '-' || b[0].Val == '+' || b[0].Val == ' ') {
		return append(append(append([]*smt.Term{}, b[0]), p...), b[1:]...)
	}
	return append(p, b...)
}

func (m *Machine) hexDigits(t *smt.Term, upper bool) []*smt.Term {
	if t.IsConst() {
		s := strconv.FormatUint(t.Val, 16)
		if upper {
			s = strings.ToUpper(s)
		}
		return m.constStr(s)
	}
	if m.opaqueFmt {
		return m.constStr("FFFFFFFF")
	}
	t = m.c.ZExt(t, 64)
	k := 1
	for ; k < 16; k++ {
		if m.decide(m.c.Cmp(smt.OpULt, t, m.c.Const(64, 1<<(4*uint(k))))) {
			break
		}
	}
	r := make([]*smt.Term, k)
	for i := range r {
		sh := uint8(4 * (k - 1 - i))
		r[i] = m.hexNib(m.c.ZExt(m.c.Extract(t, sh+3, sh), 8), upper)
	}
	return r
}

// effWidth is the number of low bits of t that can be non-zero, as far as its form shows.
func effWidth(t *smt.Term) int {
	for t.Op == smt.OpZExt {
		t = t.K[0]
	}
	return int(t.W)
}

func (m *Machine) hexFixed(t *smt.Term, k int, upper bool) []*smt.Term {
	t = m.c.ZExt(t, 64)
	r := make([]*smt.Term, k)
	for i := range r {
		sh := uint8(4 * (k - 1 - i))
		r[i] = m.hexNib(m.c.ZExt(m.c.Extract(t, sh+3, sh), 8), upper)
	}
	return r
}

func (m *Machine) hexNib(n *smt.Term, upper bool) *smt.Term {
	off := uint64('a' - 10)
	if upper {
		off = 'A' - 10
	}
	return m.c.Ite(m.c.Cmp(smt.OpULt, n, m.c.Const(8, 10)),
		m.c.Bin(smt.OpAdd, n, m.c.Const(8, '0')), m.c.Bin(smt.OpAdd, n, m.c.Const(8, off)))
}

func (m *Machine) hexBytes(b []*smt.Term, fl fmtFlags, upper bool) []*smt.Term {
	var r []*smt.Term
	for i, x := range b {
		if i > 0 && fl.space {
			r = append(r, m.c.Const(8, ' '))
		}
		r = append(r, m.hexNib(m.c.Bin(smt.OpLShr, x, m.c.Const(8, 4)), upper),
			m.hexNib(m.c.Bin(smt.OpBvAnd, x, m.c.Const(8, 15)), upper))
	}
	return r
}

func (m *Machine) stringer(a Iface, verb byte) ([]*smt.Term, bool) {
	if a.t == nil || strings.IndexByte("vsqxX", verb) < 0 {
		return nil, false
	}
	m.P.mu.Lock()
	ms := m.P.Prog.MethodSets.MethodSet(a.t)
	m.P.mu.Unlock()
	for _, name := range []string{"Error", "String"} {
		sel := ms.Lookup(nil, name)
		if sel == nil {
			continue
		}
		sig := sel.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 || sig.Results().At(0).Type().String() != "string" {
			continue
		}
		m.P.mu.Lock()
		f := m.P.Prog.MethodValue(sel)
		m.P.mu.Unlock()
		s := m.callFn(nil, f, []Value{a.v}, nil).(Str)
		return m.sb(s), true
	}
	return nil, false
}

func (m *Machine) fmtArg(verb byte, a Iface, fl fmtFlags, depth int) []*smt.Term {
	if a.t == nil {
		if verb == 'v' || verb == 's' && false {
			return m.pad(m.constStr("<nil>"), fl, false)
		}
		return m.constStr("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return m.constStr(types.TypeString(a.t, func(p *types.Package) string { return p.Name() }))
	}
	if verb == 'w' {
		verb = 'v'
	}
	if b, ok := m.stringer(a, verb); ok {
		if verb == 'v' || verb == 's' {
			return m.pad(b, fl, false)
		}
		a = Iface{types.Typ[types.String], m.mkStr(b)}
	}
	switch x := a.v.(type) {
	case *smt.Term:
		if x.W == 0 {
			if m.decide(x) {
				return m.pad(m.constStr("true"), fl, false)
			}
			return m.pad(m.constStr("false"), fl, false)
		}
		_, signed, _ := intInfo(a.t)
		switch verb {
		case 'd', 'v':
			var b []*smt.Term
			if signed {
				b = m.sdecStr(x)
			} else {
				b = m.decStr(x)
			}
			sign := ""
			if len(b) > 0 && b[0].IsConst() && b[0].Val == '-' {
				sign, b = "-", b[1:]
			} else if fl.plus {
				sign = "+"
			} else if fl.space {
				sign = " "
			}
			for fl.prec > len(b) {
				b = append(m.constStr("0"), b...)
			}
			if fl.prec >= 0 {
				fl.zero = false
			}
			b = append(m.constStr(sign), b...)
			return m.pad(b, fl, true)
		case 'x', 'X':
			neg := signed && !nonNeg(x) && m.decide(m.c.Cmp(smt.OpSLt, x, m.c.Const(x.W, 0)))
			v := x
			if neg {
				v = m.c.Neg(x)
			}
			if n := (effWidth(v) + 3) / 4; !neg && !fl.sharp && !fl.plus && !fl.space && !v.IsConst() && !m.opaqueFmt &&
				(fl.prec >= n || fl.prec < 0 && fl.zero && !fl.minus && fl.width >= n) {
				// all digits are shown whatever the value is
				b := m.hexFixed(v, n, verb == 'X')
				for fl.prec > len(b) {
					b = append(m.constStr("0"), b...)
				}
				return m.pad(b, fl, true)
			}
			b := m.hexDigits(v, verb == 'X')
			for fl.prec > len(b) {
				b = append(m.constStr("0"), b...)
			}
			if fl.prec >= 0 {
				fl.zero = false
			}
			if fl.sharp {
				b = append(m.constStr("0"+string(verb)), b...)
			}
			if neg {
				b = append(m.constStr("-"), b...)
			}
			return m.pad(b, fl, true)
		case 'c':
			return m.pad(m.constStr(string(rune(m.conc(x)))), fl, false)
		case 'q', 'U', 'b', 'o':
			return m.constStr(fmt.Sprintf("%"+string(verb), m.conc(x)))
		case 's':
			return append(append(m.constStr("%!s("+types.TypeString(a.t, nil)+"="), m.fmtArg('d', a, fmtFlags{width: -1, prec: -1}, 0)...), m.c.Const(8, ')'))
		}
	case Str:
		b := m.sb(x)
		switch verb {
		case 'v', 's':
			if fl.sharp {
				break
			}
			if fl.prec >= 0 && fl.prec < len(b) {
				b = b[:fl.prec]
			}
			return m.pad(b, fl, fl.zero)
		case 'x', 'X':
			return m.pad(m.hexBytes(b, fl, verb == 'X'), fl, false)
		case 'q':
			if s, ok := m.concStr(x); ok {
				return m.pad(m.constStr(strconv.Quote(s)), fl, false)
			}
		}
		if m.opaqueFmt {
			return m.constStr("?")
		}
	case FloatV:
		return m.constStr(fmt.Sprintf("%"+string(verb), float64(x)))
	case SliceV:
		n := int(m.conc(x.len))
		et := under(a.t).(*types.Slice).Elem()
		if w, _, _ := intInfo(et); w == 8 && (verb == 's' || verb == 'x' || verb == 'X') {
			b := m.sliceTerms(x)
			if verb == 's' {
				return m.pad(b, fl, false)
			}
			return m.pad(m.hexBytes(b, fl, verb == 'X'), fl, false)
		}
		r := m.constStr("[")
		for i := 0; i < n; i++ {
			if i > 0 {
				r = append(r, m.c.Const(8, ' '))
			}
			r = append(r, m.fmtElem(verb, et, m.load(m.elemLoc(x.arr, x.off+i)), fl, depth)...)
		}
		return append(r, m.c.Const(8, ']'))
	case ArrayV:
		et := under(a.t).(*types.Array).Elem()
		if w, _, _ := intInfo(et); w == 8 && (verb == 'x' || verb == 'X' || verb == 's') {
			var b []*smt.Term
			for _, e := range x {
				b = append(b, e.(*smt.Term))
			}
			if verb == 's' {
				return b
			}
			return m.pad(m.hexBytes(b, fl, verb == 'X'), fl, false)
		}
		r := m.constStr("[")
		for i := range x {
			if i > 0 {
				r = append(r, m.c.Const(8, ' '))
			}
			r = append(r, m.fmtElem(verb, et, x[i], fl, depth)...)
		}
		return append(r, m.c.Const(8, ']'))
	case StructV:
		st := under(a.t).(*types.Struct)
		r := m.constStr("{")
		for i := range x {
			if i > 0 {
				r = append(r, m.c.Const(8, ' '))
			}
			if fl.plus || fl.sharp {
				r = append(r, m.constStr(st.Field(i).Name()+":")...)
			}
			r = append(r, m.fmtElem(verb, st.Field(i).Type(), x[i], fl, depth)...)
		}
		return append(r, m.c.Const(8, '}'))
	case Ptr:
		if x.loc == nil {
			return m.constStr("<nil>")
		}
		return m.constStr("0xc000000000")
	}
	if m.opaqueFmt {
		return m.constStr("?")
	}
	panic(m.unsup("fmt %%%c of %s", verb, a.t))
}

func (m *Machine) fmtElem(verb byte, t types.Type, v Value, fl fmtFlags, depth int) []*smt.Term {
	if iv, ok := v.(Iface); ok {
		return m.fmtArg(verb, iv, fl, depth+1)
	}
	return m.fmtArg(verb, Iface{t, v}, fl, depth+1)
}
