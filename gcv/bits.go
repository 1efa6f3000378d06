package main

// Bitwise operations on mathematical integers, with known-zero-bit tracking.

import "math/big"

func bitsOf(t *Term) *big.Int {
	if t.num != nil {
		if t.num.Sign() >= 0 {
			return t.num
		}
		return nil
	}
	var m *big.Int
	if t.lo != nil && t.hi != nil && t.lo.Sign() >= 0 {
		m = new(big.Int).Lsh(big.NewInt(1), uint(t.hi.BitLen()))
		m.Sub(m, big.NewInt(1))
	}
	if t.bits != nil {
		if m != nil {
			return new(big.Int).And(m, t.bits)
		}
		return t.bits
	}
	return m
}

func disjointBits(x, y *Term) bool {
	bx, by := bitsOf(x), bitsOf(y)
	return bx != nil && by != nil && new(big.Int).And(bx, by).Sign() == 0
}

func isPow2(n *big.Int) (uint, bool) {
	if n.Sign() <= 0 {
		return 0, false
	}
	k := uint(n.BitLen() - 1)
	return k, n.TrailingZeroBits() == k
}

func (b *TB) setBits(t *Term, m *big.Int) *Term {
	if t.num == nil && t.bits == nil && m != nil {
		t.bits = m
		if t.lo == nil {
			t.lo = big.NewInt(0)
		}
		if t.hi == nil {
			t.hi = m
		}
	}
	return t
}

// AndConst is x & m for a non-negative constant m (two's complement, infinite precision).
func (b *TB) AndConst(x *Term, m *big.Int) *Term {
	if x.num != nil {
		return b.Num(new(big.Int).And(x.num, m))
	}
	if m.Sign() == 0 {
		return b.I(0)
	}
	if bx := bitsOf(x); bx != nil {
		if new(big.Int).And(bx, m).Sign() == 0 {
			return b.I(0)
		}
		if new(big.Int).AndNot(bx, m).Sign() == 0 {
			return x
		}
		m = new(big.Int).And(bx, m)
	}
	u := unname(x)
	switch {
	case u.op == "+" && len(u.args) == 2 && disjointBits(u.args[0], u.args[1]):
		return b.Add(b.AndConst(u.args[0], m), b.AndConst(u.args[1], m))
	case u.op == "*" && len(u.args) == 2 && u.args[1].num != nil:
		if k, ok := isPow2(u.args[1].num); ok {
			return b.Mul(b.AndConst(u.args[0], new(big.Int).Rsh(m, k)), u.args[1])
		}
	case u.op == "ite" && (u.args[1].num != nil || u.args[2].num != nil):
		return b.Ite(u.args[0], b.AndConst(u.args[1], m), b.AndConst(u.args[2], m))
	}
	// runs of ones
	res := b.I(0)
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		lo := new(big.Int).Lsh(big.NewInt(1), uint(i))
		w := new(big.Int).Lsh(big.NewInt(1), uint(j-i))
		part := b.Mul(b.Mod(b.Div(x, b.Num(lo)), b.Num(w)), b.Num(lo))
		res = b.Add(res, part)
		i = j
	}
	return res
}

// OrConst is x | m for non-negative x within width mask full.
func (b *TB) OrConst(x *Term, m, full *big.Int) *Term {
	rest := new(big.Int).AndNot(full, m)
	return b.Add(b.AndConst(x, rest), b.Num(m))
}
