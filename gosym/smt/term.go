// Package smt holds hash-consed bit-vector terms with light rewriting,
// concrete evaluation, and an SMT-LIB2 solver pipe.
package smt

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpBvNot
	OpBvNeg
	OpBvAnd
	OpBvOr
	OpBvXor
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpShl
	OpLShr
	OpAShr
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpExtract // val = hi<<8|lo
	OpConcat
	OpZExt
	OpSExt
)

// Term is a hash-consed expression. W == 0 means Bool, otherwise a bit-vector of W bits (<= 64).
type Term struct {
	Op      Op
	W       uint8
	N       uint8
	ID      uint32
	Val     uint64
	K       [3]*Term
	Name    string
	umax    uint64
	evalGen uint32
	evalVal uint64
	withGen uint32
	withVal uint64
	defd    uint32 // solver generation in which this term was defined
}

type key struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
	name    string
}

// Ctx owns a term table; not safe for concurrent use.
type Ctx struct {
	tab    map[key]*Term
	nextID uint32
	True   *Term
	False  *Term
	gen    uint32
	model  map[string]uint64
	small  [65][]*Term
	vars   map[*Term][]*Term
	wgen   uint32
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*Term{}, nextID: 1, gen: 1, vars: map[*Term][]*Term{}}
	c.False = c.mk(key{op: OpConst, w: 0, val: 0}, nil, nil, nil)
	c.True = c.mk(key{op: OpConst, w: 0, val: 1}, nil, nil, nil)
	return c
}

func (c *Ctx) Size() int { return len(c.tab) }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(k key, a, b, d *Term) *Term {
	n := uint8(0)
	if a != nil {
		k.a = a.ID
		n++
	}
	if b != nil {
		k.b = b.ID
		n++
	}
	if d != nil {
		k.c = d.ID
		n++
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{Op: k.op, W: k.w, Val: k.val, N: n, ID: c.nextID, K: [3]*Term{a, b, d}, Name: k.name}
	c.nextID++
	t.umax = t.calcUmax()
	c.tab[k] = t
	return t
}

func (t *Term) calcUmax() uint64 {
	m := mask(t.W)
	switch t.Op {
	case OpConst:
		return t.Val
	case OpZExt:
		return t.K[0].umax
	case OpBvAnd:
		return min(t.K[0].umax, t.K[1].umax)
	case OpLShr:
		if t.K[1].Op == OpConst {
			if t.K[1].Val >= uint64(t.W) {
				return 0
			}
			return t.K[0].umax >> t.K[1].Val
		}
		return t.K[0].umax
	case OpShl:
		if t.K[1].Op == OpConst && t.K[1].Val < 64 {
			s := t.K[1].Val
			if bits.Len64(t.K[0].umax)+int(s) <= int(t.W) {
				return t.K[0].umax << s
			}
		}
		return m
	case OpBvOr, OpBvXor:
		l := bits.Len64(t.K[0].umax | t.K[1].umax)
		return mask(uint8(l))
	case OpAdd:
		s := t.K[0].umax + t.K[1].umax
		if s < t.K[0].umax || s > m {
			return m
		}
		return s
	case OpMul:
		hi, lo := bits.Mul64(t.K[0].umax, t.K[1].umax)
		if hi != 0 || lo > m {
			return m
		}
		return lo
	case OpURem:
		if t.K[1].Op == OpConst && t.K[1].Val > 0 {
			return min(t.K[0].umax, t.K[1].Val-1)
		}
		return t.K[0].umax
	case OpUDiv:
		if t.K[1].Op == OpConst && t.K[1].Val > 0 {
			return t.K[0].umax / t.K[1].Val
		}
		return m
	case OpIte:
		return max(t.K[1].umax, t.K[2].umax)
	case OpExtract:
		if t.Val&0xff == 0 {
			return min(m, t.K[0].umax)
		}
		return m
	}
	if t.W == 0 {
		return 1
	}
	return m
}

// UMax is an upper bound of the unsigned value.
func (t *Term) UMax() uint64 { return t.umax }

func (t *Term) IsConst() bool { return t.Op == OpConst }

// SVal is the signed value of a constant.
func (t *Term) SVal() int64 { return sext(t.Val, t.W) }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *Ctx) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 256 {
		s := c.small[w]
		if s == nil {
			s = make([]*Term, 256)
			c.small[w] = s
		}
		if t := s[v]; t != nil {
			return t
		}
		t := c.mk(key{op: OpConst, w: w, val: v}, nil, nil, nil)
		s[v] = t
		return t
	}
	return c.mk(key{op: OpConst, w: w, val: v}, nil, nil, nil)
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var returns the variable of that name (w == 0: Bool).
func (c *Ctx) Var(name string, w uint8) *Term {
	return c.mk(key{op: OpVar, w: w, name: name}, nil, nil, nil)
}

func (c *Ctx) Not(a *Term) *Term {
	if a.Op == OpConst {
		return c.Bool(a.Val == 0)
	}
	if a.Op == OpNot {
		return a.K[0]
	}
	return c.mk(key{op: OpNot}, a, nil, nil)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.Op == OpConst {
		if a.Val == 0 {
			return a
		}
		return b
	}
	if b.Op == OpConst {
		if b.Val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.Op == OpNot && a.K[0] == b) || (b.Op == OpNot && b.K[0] == a) {
		return c.False
	}
	return c.mk(key{op: OpAnd}, a, b, nil)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.Op == OpConst {
		if a.Val == 1 {
			return a
		}
		return b
	}
	if b.Op == OpConst {
		if b.Val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.Op == OpNot && a.K[0] == b) || (b.Op == OpNot && b.K[0] == a) {
		return c.True
	}
	return c.mk(key{op: OpOr}, a, b, nil)
}

func (c *Ctx) AndAll(ts ...*Term) *Term {
	r := c.True
	for _, t := range ts {
		r = c.And(r, t)
	}
	return r
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("Eq width %d %d", a.W, b.W))
	}
	if a.Op == OpConst && b.Op == OpConst {
		return c.Bool(a.Val == b.Val)
	}
	if a.Op == OpConst {
		a, b = b, a
	}
	if a.W == 0 && b.Op == OpConst {
		if b.Val == 1 {
			return a
		}
		return c.Not(a)
	}
	if b.Op == OpConst {
		if b.Val > a.umax {
			return c.False
		}
		switch a.Op {
		case OpZExt:
			return c.Eq(a.K[0], c.Const(a.K[0].W, b.Val))
		case OpIte:
			// push equality with a constant into ite with constant leaves
			if a.K[1].Op == OpConst && a.K[2].Op == OpConst {
				e1, e2 := a.K[1].Val == b.Val, a.K[2].Val == b.Val
				switch {
				case e1 && e2:
					return c.True
				case e1:
					return a.K[0]
				case e2:
					return c.Not(a.K[0])
				default:
					return c.False
				}
			}
		}
	}
	if r := c.eqPieces(a, b); r != nil {
		return r
	}
	if b.Op != OpConst && a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(key{op: OpEq}, a, b, nil)
}

func (c *Ctx) Ite(i, a, b *Term) *Term {
	if i.Op == OpConst {
		if i.Val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W == 0 {
		if a.Op == OpConst && b.Op == OpConst {
			if a.Val == 1 {
				return i
			}
			return c.Not(i)
		}
		if a.Op == OpConst {
			if a.Val == 1 {
				return c.Or(i, b)
			}
			return c.And(c.Not(i), b)
		}
		if b.Op == OpConst {
			if b.Val == 1 {
				return c.Or(c.Not(i), a)
			}
			return c.And(i, a)
		}
	}
	return c.mk(key{op: OpIte, w: a.W}, i, a, b)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpBvAnd:
		return x & y, true
	case OpBvOr:
		return x | y, true
	case OpBvXor:
		return x ^ y, true
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m, true
			}
			return 1, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAShr:
		s := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m, true
	}
	return 0, false
}

// Bin builds a bit-vector binary operation.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.W
	if a.W != b.W {
		panic(fmt.Sprintf("Bin op %d width %d %d", op, a.W, b.W))
	}
	if a.Op == OpConst && b.Op == OpConst {
		v, ok := foldBin(op, w, a.Val, b.Val)
		if ok {
			return c.Const(w, v)
		}
	}
	switch op {
	case OpBvAnd, OpBvOr, OpBvXor, OpAdd, OpMul:
		if a.Op == OpConst {
			a, b = b, a
		}
	}
	if b.Op == OpConst {
		v := b.Val
		switch op {
		case OpBvAnd:
			if v == 0 {
				return b
			}
			// and with a low mask covering umax
			if v&(v+1) == 0 && a.umax <= v {
				return a
			}
			if ps := c.parts(a); len(ps) > 1 {
				var hit *Piece
				for i := range ps {
					if mask(ps[i].T.W)<<ps[i].Sh&v != 0 {
						if hit != nil {
							hit = nil
							break
						}
						hit = &ps[i]
					}
				}
				if hit != nil && v&^(mask(hit.T.W)<<hit.Sh) == 0 {
					x := c.Bin(OpBvAnd, hit.T, c.Const(hit.T.W, v>>hit.Sh))
					return c.Bin(OpShl, c.ZExt(x, w), c.Const(w, hit.Sh))
				}
			}
		case OpBvOr, OpBvXor, OpAdd, OpSub, OpShl, OpLShr, OpAShr:
			if v == 0 {
				return a
			}
			if (op == OpShl || op == OpLShr) && v >= uint64(w) {
				return c.Const(w, 0)
			}
			if op == OpLShr && a.umax>>v == 0 {
				return c.Const(w, 0)
			}
			// (x + c1) + c2
			if op == OpAdd && a.Op == OpAdd && a.K[1].Op == OpConst {
				return c.Bin(OpAdd, a.K[0], c.Const(w, a.K[1].Val+v))
			}
			if op == OpSub {
				return c.Bin(OpAdd, a, c.Const(w, -v))
			}
		case OpMul:
			if v == 0 {
				return b
			}
			if v == 1 {
				return a
			}
		case OpUDiv, OpSDiv:
			if v == 1 {
				return a
			}
		case OpURem:
			if v > 0 && a.umax < v {
				return a
			}
		}
	}
	if a.Op == OpConst && a.Val == 0 {
		switch op {
		case OpShl, OpLShr, OpAShr:
			return a
		}
	}
	if a == b {
		switch op {
		case OpBvAnd, OpBvOr:
			return a
		case OpBvXor, OpSub:
			return c.Const(w, 0)
		}
	}
	switch op {
	case OpBvAnd, OpBvOr, OpBvXor, OpAdd, OpMul:
		if b.Op != OpConst && a.ID > b.ID {
			a, b = b, a
		}
	}
	return c.mk(key{op: op, w: w}, a, b, nil)
}

func (c *Ctx) BvNot(a *Term) *Term {
	if a.Op == OpConst {
		return c.Const(a.W, ^a.Val)
	}
	if a.Op == OpBvNot {
		return a.K[0]
	}
	return c.mk(key{op: OpBvNot, w: a.W}, a, nil, nil)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.Op == OpConst {
		return c.Const(a.W, -a.Val)
	}
	return c.mk(key{op: OpBvNeg, w: a.W}, a, nil, nil)
}

// smaxOK reports that the term is known non-negative as a signed number.
func (t *Term) nonNeg() bool { return t.umax <= mask(t.W)>>1 }

// Cmp builds OpULt, OpULe, OpSLt or OpSLe.
func (c *Ctx) Cmp(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic("Cmp width")
	}
	if (op == OpSLt || op == OpSLe) && a.nonNeg() && b.nonNeg() {
		if op == OpSLt {
			op = OpULt
		} else {
			op = OpULe
		}
	}
	if a == b {
		return c.Bool(op == OpULe || op == OpSLe)
	}
	if a.Op == OpConst && b.Op == OpConst {
		switch op {
		case OpULt:
			return c.Bool(a.Val < b.Val)
		case OpULe:
			return c.Bool(a.Val <= b.Val)
		case OpSLt:
			return c.Bool(a.SVal() < b.SVal())
		default:
			return c.Bool(a.SVal() <= b.SVal())
		}
	}
	switch op {
	case OpULt:
		if b.Op == OpConst && a.umax < b.Val {
			return c.True
		}
		if b.Op == OpConst && b.Val == 0 {
			return c.False
		}
		if a.Op == OpConst && a.Val >= b.umax {
			return c.False
		}
	case OpULe:
		if b.Op == OpConst && a.umax <= b.Val {
			return c.True
		}
		if a.Op == OpConst && a.Val == 0 {
			return c.True
		}
		if a.Op == OpConst && a.Val > b.umax {
			return c.False
		}
		// a <= b  ==  !(b < a)
		return c.Not(c.Cmp(OpULt, b, a))
	case OpSLt:
		if a.nonNeg() && b.Op == OpConst && b.SVal() <= 0 {
			return c.False
		}
		if b.nonNeg() && a.Op == OpConst && a.SVal() < 0 {
			return c.True
		}
	case OpSLe:
		return c.Not(c.Cmp(OpSLt, b, a))
	}
	if op == OpSLt && b.Op == OpConst {
		if x := b.SVal(); x == 0 && c.splits(a) {
			return c.Eq(c.Extract(a, a.W-1, a.W-1), c.Const(1, 1))
		} else if x > 0 && c.splits(a) {
			return c.Or(c.Cmp(OpSLt, a, c.Const(a.W, 0)), c.Cmp(OpULt, a, b))
		}
	}
	if op == OpSLt && a.Op == OpConst && a.SVal() >= -1 && c.splits(b) {
		// a < b  ==  !(b < a+1)
		if x := c.Const(a.W, a.Val+1); x.SVal() > a.SVal() {
			return c.Not(c.Cmp(OpSLt, b, x))
		}
	}
	if op == OpULt && a.Op == OpConst && a.Val < mask(a.W) && c.splits(b) {
		return c.Not(c.Cmp(OpULt, b, c.Const(a.W, a.Val+1)))
	}
	if op == OpULt && b.Op == OpConst && a.Op == OpSExt && b.Val <= mask(a.K[0].W)>>1+1 {
		return c.Cmp(OpULt, a.K[0], c.Const(a.K[0].W, b.Val))
	}
	if op == OpSLt && b.Op == OpConst && a.Op == OpSExt && sext(b.Val&mask(a.K[0].W), a.K[0].W) == b.SVal() {
		return c.Cmp(OpSLt, a.K[0], c.Const(a.K[0].W, b.Val))
	}
	if op == OpSLt && a.Op == OpConst && b.Op == OpSExt && sext(a.Val&mask(b.K[0].W), b.K[0].W) == a.SVal() {
		return c.Cmp(OpSLt, c.Const(b.K[0].W, a.Val), b.K[0])
	}
	if op == OpULt && b.Op == OpConst {
		if r := c.ultPieces(a, b.Val); r != nil {
			return r
		}
	}
	// zext operands: compare narrow
	if op == OpULt && a.Op == OpZExt && b.Op == OpZExt && a.K[0].W == b.K[0].W {
		return c.Cmp(op, a.K[0], b.K[0])
	}
	if op == OpULt && a.Op == OpZExt && b.Op == OpConst && b.Val <= mask(a.K[0].W) {
		return c.Cmp(op, a.K[0], c.Const(a.K[0].W, b.Val))
	}
	if op == OpULt && b.Op == OpZExt && a.Op == OpConst && a.Val <= mask(b.K[0].W) {
		return c.Cmp(op, c.Const(b.K[0].W, a.Val), b.K[0])
	}
	return c.mk(key{op: op}, a, b, nil)
}

func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.W {
		return a
	}
	if a.Op == OpConst {
		return c.Const(w, a.Val>>lo)
	}
	switch a.Op {
	case OpExtract:
		l := uint8(a.Val & 0xff)
		return c.Extract(a.K[0], hi+l, lo+l)
	case OpZExt:
		kw := a.K[0].W
		if hi < kw {
			return c.Extract(a.K[0], hi, lo)
		}
		if lo >= kw {
			return c.Const(w, 0)
		}
		if lo == 0 {
			return c.ZExt(a.K[0], w)
		}
	case OpSExt:
		if hi < a.K[0].W {
			return c.Extract(a.K[0], hi, lo)
		}
	case OpLShr:
		if a.K[1].Op == OpConst && a.K[1].Val+uint64(hi) < uint64(a.W) {
			s := uint8(a.K[1].Val)
			return c.Extract(a.K[0], hi+s, lo+s)
		}
	case OpAShr:
		if a.K[1].Op == OpConst && a.K[1].Val+uint64(hi) < uint64(a.W) {
			s := uint8(a.K[1].Val)
			return c.Extract(a.K[0], hi+s, lo+s)
		}
	case OpIte:
		if a.K[1].Op == OpConst || a.K[2].Op == OpConst {
			return c.Ite(a.K[0], c.Extract(a.K[1], hi, lo), c.Extract(a.K[2], hi, lo))
		}
	}
	if a.Op == OpBvOr || a.Op == OpShl || a.Op == OpConcat {
		if ps := c.parts(a); ps != nil {
			hit := false
			for _, p := range ps {
				top := p.Sh + uint64(p.T.W) - 1
				if p.Sh <= uint64(lo) && uint64(hi) <= top {
					return c.Extract(p.T, hi-uint8(p.Sh), lo-uint8(p.Sh))
				}
				if !(top < uint64(lo) || p.Sh > uint64(hi)) {
					hit = true
				}
			}
			if !hit {
				return c.Const(w, 0)
			}
		}
	}
	return c.mk(key{op: OpExtract, w: w, val: uint64(hi)<<8 | uint64(lo)}, a, nil, nil)
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	if a.Op == OpConst {
		return c.Const(w, a.Val)
	}
	if a.Op == OpZExt {
		return c.ZExt(a.K[0], w)
	}
	return c.mk(key{op: OpZExt, w: w}, a, nil, nil)
}

func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	if a.Op == OpConst {
		return c.Const(w, uint64(a.SVal()))
	}
	if a.nonNeg() {
		return c.ZExt(a, w)
	}
	return c.mk(key{op: OpSExt, w: w}, a, nil, nil)
}

// SetModel installs an assignment for Eval (missing variables are 0).
func (c *Ctx) SetModel(m map[string]uint64) {
	c.model = m
	c.gen++
}

// Eval evaluates t under the installed model.
func (c *Ctx) Eval(t *Term) uint64 {
	if t.Op == OpConst {
		return t.Val
	}
	if t.evalGen == c.gen {
		return t.evalVal
	}
	var v uint64
	switch t.Op {
	case OpVar:
		v = c.model[t.Name] & mask(t.W)
		if t.W == 0 {
			v = c.model[t.Name] & 1
		}
	case OpNot:
		v = 1 - c.Eval(t.K[0])
	case OpAnd:
		v = c.Eval(t.K[0]) & c.Eval(t.K[1])
	case OpOr:
		v = c.Eval(t.K[0]) | c.Eval(t.K[1])
	case OpEq:
		v = b2u(c.Eval(t.K[0]) == c.Eval(t.K[1]))
	case OpIte:
		if c.Eval(t.K[0]) == 1 {
			v = c.Eval(t.K[1])
		} else {
			v = c.Eval(t.K[2])
		}
	case OpBvNot:
		v = ^c.Eval(t.K[0]) & mask(t.W)
	case OpBvNeg:
		v = -c.Eval(t.K[0]) & mask(t.W)
	case OpULt:
		v = b2u(c.Eval(t.K[0]) < c.Eval(t.K[1]))
	case OpULe:
		v = b2u(c.Eval(t.K[0]) <= c.Eval(t.K[1]))
	case OpSLt:
		v = b2u(sext(c.Eval(t.K[0]), t.K[0].W) < sext(c.Eval(t.K[1]), t.K[0].W))
	case OpSLe:
		v = b2u(sext(c.Eval(t.K[0]), t.K[0].W) <= sext(c.Eval(t.K[1]), t.K[0].W))
	case OpExtract:
		v = (c.Eval(t.K[0]) >> (t.Val & 0xff)) & mask(t.W)
	case OpConcat:
		v = c.Eval(t.K[0])<<t.K[1].W | c.Eval(t.K[1])
	case OpZExt:
		v = c.Eval(t.K[0])
	case OpSExt:
		v = uint64(sext(c.Eval(t.K[0]), t.K[0].W)) & mask(t.W)
	default:
		v, _ = foldBin(t.Op, t.W, c.Eval(t.K[0]), c.Eval(t.K[1]))
	}
	t.evalGen, t.evalVal = c.gen, v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Vars lists the variables of t.
func (c *Ctx) Vars(t *Term) []*Term {
	switch t.Op {
	case OpConst:
		return nil
	case OpVar:
		if v, ok := c.vars[t]; ok {
			return v
		}
		v := []*Term{t}
		c.vars[t] = v
		return v
	}
	if v, ok := c.vars[t]; ok {
		return v
	}
	var r []*Term
	shared := false
	for i := 0; i < int(t.N); i++ {
		k := c.Vars(t.K[i])
		if len(r) == 0 {
			r, shared = k, true
			continue
		}
		for _, v := range k {
			found := false
			for _, x := range r {
				if x == v {
					found = true
					break
				}
			}
			if !found {
				if shared {
					r, shared = append([]*Term(nil), r...), false
				}
				r = append(r, v)
			}
		}
	}
	c.vars[t] = r
	return r
}

// EvalWith evaluates t under the installed model with v set to x.
func (c *Ctx) EvalWith(t, v *Term, x uint64) uint64 {
	c.wgen++
	return c.evalWith(t, v, x)
}

func (c *Ctx) evalWith(t, v *Term, x uint64) uint64 {
	switch t.Op {
	case OpConst:
		return t.Val
	case OpVar:
		if t == v {
			return x
		}
		return c.Eval(t)
	}
	dep := false
	for _, y := range c.Vars(t) {
		if y == v {
			dep = true
			break
		}
	}
	if !dep {
		return c.Eval(t)
	}
	if t.withGen == c.wgen {
		return t.withVal
	}
	var k [3]uint64
	if t.Op == OpIte {
		if c.evalWith(t.K[0], v, x) == 1 {
			k[0] = c.evalWith(t.K[1], v, x)
		} else {
			k[0] = c.evalWith(t.K[2], v, x)
		}
		t.withGen, t.withVal = c.wgen, k[0]
		return k[0]
	}
	for i := 0; i < int(t.N); i++ {
		k[i] = c.evalWith(t.K[i], v, x)
	}
	r := apply(t, k)
	t.withGen, t.withVal = c.wgen, r
	return r
}

func apply(t *Term, k [3]uint64) uint64 {
	switch t.Op {
	case OpNot:
		return 1 - k[0]
	case OpAnd:
		return k[0] & k[1]
	case OpOr:
		return k[0] | k[1]
	case OpEq:
		return b2u(k[0] == k[1])
	case OpBvNot:
		return ^k[0] & mask(t.W)
	case OpBvNeg:
		return -k[0] & mask(t.W)
	case OpULt:
		return b2u(k[0] < k[1])
	case OpULe:
		return b2u(k[0] <= k[1])
	case OpSLt:
		return b2u(sext(k[0], t.K[0].W) < sext(k[1], t.K[0].W))
	case OpSLe:
		return b2u(sext(k[0], t.K[0].W) <= sext(k[1], t.K[0].W))
	case OpExtract:
		return (k[0] >> (t.Val & 0xff)) & mask(t.W)
	case OpConcat:
		return k[0]<<t.K[1].W | k[1]
	case OpZExt:
		return k[0]
	case OpSExt:
		return uint64(sext(k[0], t.K[0].W)) & mask(t.W)
	}
	v, _ := foldBin(t.Op, t.W, k[0], k[1])
	return v
}

// Piece is a part of a term at a bit offset.
type Piece struct {
	T  *Term
	Sh uint64
}

// Pieces splits a term built by or-ing shifted, zero-extended parts that do not overlap.
func (c *Ctx) Pieces(t *Term) []Piece {
	var out []Piece
	if t.W == 0 || !pieces(t, 0, uint64(t.W), &out) || len(out) < 2 {
		return nil
	}
	var used uint64
	for _, p := range out {
		m := mask(p.T.W) << p.Sh
		if used&m != 0 {
			return nil
		}
		used |= m
	}
	return out
}

func pieces(t *Term, sh, limit uint64, out *[]Piece) bool {
	limit = min(limit, sh+uint64(t.W))
	switch t.Op {
	case OpConst:
		return t.Val == 0
	case OpBvOr:
		return pieces(t.K[0], sh, limit, out) && pieces(t.K[1], sh, limit, out)
	case OpShl:
		if !t.K[1].IsConst() || t.K[1].Val >= uint64(t.W) {
			return false
		}
		return pieces(t.K[0], sh+t.K[1].Val, limit, out)
	case OpConcat:
		return pieces(t.K[0], sh+uint64(t.K[1].W), limit, out) && pieces(t.K[1], sh, limit, out)
	case OpZExt:
		return pieces(t.K[0], sh, limit, out)
	}
	if sh+uint64(t.W) > limit {
		return false
	}
	*out = append(*out, Piece{t, sh})
	return true
}

// parts is Pieces, one piece included.
func (c *Ctx) parts(t *Term) []Piece {
	if t.W == 0 {
		return nil
	}
	if t.Op != OpBvOr && t.Op != OpShl && t.Op != OpConcat && t.Op != OpZExt {
		return nil
	}
	var out []Piece
	if !pieces(t, 0, uint64(t.W), &out) || len(out) == 0 {
		return nil
	}
	var used uint64
	for _, p := range out {
		m := mask(p.T.W) << p.Sh
		if used&m != 0 {
			return nil
		}
		used |= m
	}
	return out
}

func (c *Ctx) splits(t *Term) bool {
	for t.Op == OpSExt {
		t = t.K[0]
	}
	return len(c.parts(t)) > 1
}

// ultPieces rewrites parts < v when v does not reach beyond the lowest part.
func (c *Ctx) ultPieces(t *Term, v uint64) *Term {
	ps := c.parts(t)
	if len(ps) < 2 {
		return nil
	}
	r := c.True
	if v&(v-1) == 0 && v > 0 {
		k := uint64(bits.TrailingZeros64(v))
		for _, p := range ps {
			switch {
			case p.Sh >= k:
				r = c.And(r, c.Eq(p.T, c.Const(p.T.W, 0)))
			case p.Sh+uint64(p.T.W) > k:
				lo := uint8(k - p.Sh)
				r = c.And(r, c.Eq(c.Extract(p.T, p.T.W-1, lo), c.Const(p.T.W-lo, 0)))
			}
		}
		return r
	}
	var low *Term
	for _, p := range ps {
		if p.Sh == 0 {
			low = p.T
			continue
		}
		if uint64(1)<<p.Sh < v {
			return nil
		}
		r = c.And(r, c.Eq(p.T, c.Const(p.T.W, 0)))
	}
	if low == nil {
		return nil
	}
	if low.W < 64 && v > mask(low.W) {
		return r
	}
	return c.And(r, c.Cmp(OpULt, low, c.Const(low.W, v)))
}

// eqPieces compares part by part.
func (c *Ctx) eqPieces(a, b *Term) *Term {
	if a.W == 0 {
		return nil
	}
	pa := c.parts(a)
	if b.Op == OpConst {
		if len(pa) == 0 || len(pa) == 1 && pa[0].T == a {
			return nil
		}
		r := c.True
		rest := b.Val
		for _, p := range pa {
			rest &^= mask(p.T.W) << p.Sh
			r = c.And(r, c.Eq(p.T, c.Const(p.T.W, b.Val>>p.Sh)))
		}
		if rest != 0 {
			return c.False
		}
		return r
	}
	pb := c.parts(b)
	if len(pa) == 0 && len(pb) == 0 {
		return nil
	}
	if len(pa) == 0 {
		pa = []Piece{{a, 0}}
	}
	if len(pb) == 0 {
		pb = []Piece{{b, 0}}
	}
	if len(pa)+len(pb) < 3 && pa[0].T == a && pb[0].T == b {
		return nil
	}
	r := c.True
	done := make([]bool, len(pb))
	for _, p := range pa {
		m := mask(p.T.W) << p.Sh
		other := (*Term)(nil)
		for j, q := range pb {
			n := mask(q.T.W) << q.Sh
			if n == m {
				other, done[j] = q.T, true
			} else if n&m != 0 {
				return nil
			}
		}
		if other == nil {
			other = c.Const(p.T.W, 0)
		}
		r = c.And(r, c.Eq(p.T, other))
	}
	for j, q := range pb {
		if !done[j] {
			r = c.And(r, c.Eq(q.T, c.Const(q.T.W, 0)))
		}
	}
	return r
}
