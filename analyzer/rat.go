package main

import (
	"math/big"
	"math/bits"
)

// rat is an exact rational: int64 numerator/denominator with a transparent
// fallback to big.Rat when an operation overflows.
type rat struct {
	n, d int64 // valid when b == nil; d > 0
	b    *big.Rat
}

func ri(n int64) rat { return rat{n: n, d: 1} }

var (
	rzero = ri(0)
	rone  = ri(1)
)

func (a rat) big() *big.Rat {
	if a.b != nil {
		return a.b
	}
	return big.NewRat(a.n, a.d)
}

func fromBig(b *big.Rat) rat {
	if b.Num().IsInt64() && b.Denom().IsInt64() {
		n, d := b.Num().Int64(), b.Denom().Int64()
		const lim = 1 << 62
		if n > -lim && n < lim && d < lim {
			return rat{n: n, d: d}
		}
	}
	return rat{b: b}
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func gcd64(a, b int64) int64 {
	a, b = abs64(a), abs64(b)
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	if hi != 0 || lo >= 1<<62 {
		return 0, false
	}
	r := int64(lo)
	if (a < 0) != (b < 0) {
		r = -r
	}
	return r, true
}

func addOK(a, b int64) (int64, bool) {
	c := a + b
	const lim = 1 << 62
	if c >= lim || c <= -lim || (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		return 0, false
	}
	return c, true
}

func norm(n, d int64) rat {
	if n == 0 {
		return rzero
	}
	if d == 1 {
		return rat{n: n, d: 1}
	}
	g := gcd64(n, d)
	return rat{n: n / g, d: d / g}
}

func (a rat) sign() int {
	if a.b != nil {
		return a.b.Sign()
	}
	switch {
	case a.n > 0:
		return 1
	case a.n < 0:
		return -1
	}
	return 0
}

func (a rat) isZero() bool { return a.b == nil && a.n == 0 }

func (a rat) add(c rat) rat {
	if a.b == nil && c.b == nil {
		if a.n == 0 {
			return c
		}
		if c.n == 0 {
			return a
		}
		if a.d == 1 && c.d == 1 {
			if s, ok := addOK(a.n, c.n); ok {
				return rat{n: s, d: 1}
			}
		} else if x, ok := mulOK(a.n, c.d); ok {
			if y, ok := mulOK(c.n, a.d); ok {
				if s, ok := addOK(x, y); ok {
					if d, ok := mulOK(a.d, c.d); ok {
						return norm(s, d)
					}
				}
			}
		}
	}
	return fromBig(new(big.Rat).Add(a.big(), c.big()))
}

func (a rat) neg() rat {
	if a.b == nil {
		return rat{n: -a.n, d: a.d}
	}
	return fromBig(new(big.Rat).Neg(a.b))
}

func (a rat) sub(c rat) rat { return a.add(c.neg()) }

func (a rat) mul(c rat) rat {
	if a.b == nil && c.b == nil {
		if a.n == 0 || c.n == 0 {
			return rzero
		}
		g1, g2 := gcd64(a.n, c.d), gcd64(c.n, a.d)
		if n, ok := mulOK(a.n/g1, c.n/g2); ok {
			if d, ok := mulOK(a.d/g2, c.d/g1); ok {
				return rat{n: n, d: d}
			}
		}
	}
	return fromBig(new(big.Rat).Mul(a.big(), c.big()))
}

func (a rat) inv() rat {
	if a.b == nil {
		if a.n < 0 {
			return rat{n: -a.d, d: -a.n}
		}
		return rat{n: a.d, d: a.n}
	}
	return fromBig(new(big.Rat).Inv(a.b))
}

func (a rat) cmp(c rat) int {
	if a.b == nil && c.b == nil {
		if a.d == c.d {
			switch {
			case a.n < c.n:
				return -1
			case a.n > c.n:
				return 1
			}
			return 0
		}
		if x, ok := mulOK(a.n, c.d); ok {
			if y, ok := mulOK(c.n, a.d); ok {
				switch {
				case x < y:
					return -1
				case x > y:
					return 1
				}
				return 0
			}
		}
	}
	return a.big().Cmp(c.big())
}

func (a rat) isInt() bool {
	if a.b == nil {
		return a.d == 1
	}
	return a.b.IsInt()
}

// floor returns the integer floor as a rat.
func (a rat) floor() rat {
	if a.b == nil {
		if a.d == 1 {
			return a
		}
		q := a.n / a.d
		if a.n < 0 {
			q--
		}
		return ri(q)
	}
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(a.b.Num(), a.b.Denom(), m)
	return fromBig(new(big.Rat).SetInt(q))
}

func (a rat) int64() (int64, bool) {
	if a.b == nil && a.d == 1 {
		return a.n, true
	}
	return 0, false
}
