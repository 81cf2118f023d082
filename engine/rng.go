package main

import "math/bits"

// srange bounds a 64-bit term read as a signed number.
func srange(t *Term, d int) (lo, hi int64, ok bool) {
	if t.w != 64 || d > 8 {
		return 0, 0, false
	}
	switch t.op {
	case OConst:
		return int64(t.val), int64(t.val), true
	case OZExt:
		if t.a.w < 63 {
			return 0, int64(mask(t.a.w)), true
		}
	case OSExt:
		if t.a.w < 64 {
			h := int64(1) << (t.a.w - 1)
			return -h, h - 1, true
		}
	case OIte:
		l1, h1, o1 := srange(t.b, d+1)
		l2, h2, o2 := srange(t.c, d+1)
		if o1 && o2 {
			return min(l1, l2), max(h1, h2), true
		}
	case OAdd, OSub:
		l1, h1, o1 := srange(t.a, d+1)
		l2, h2, o2 := srange(t.b, d+1)
		const lim = int64(1) << 61
		if o1 && o2 && l1 > -lim && h1 < lim && l2 > -lim && h2 < lim {
			if t.op == OAdd {
				return l1 + l2, h1 + h2, true
			}
			return l1 - h2, h1 - l2, true
		}
	case OMul:
		if x, k := mulConst(t); x != nil {
			if l, h, ok := srange(x, d+1); ok {
				a, o1 := mulFits(l, k)
				b, o2 := mulFits(h, k)
				if o1 && o2 {
					return a, b, true
				}
			}
		}
	}
	return 0, 0, false
}

// mulConst splits x*k with a positive constant k.
func mulConst(t *Term) (*Term, int64) {
	if t.op != OMul || t.w != 64 {
		return nil, 0
	}
	x, k := t.a, t.b
	if x.isConst() {
		x, k = k, x
	}
	if !k.isConst() || int64(k.val) <= 0 {
		return nil, 0
	}
	return x, int64(k.val)
}

func mulFits(v, k int64) (int64, bool) {
	u := uint64(v)
	if v < 0 {
		u = -u
	}
	h, l := bits.Mul64(u, uint64(k))
	if h != 0 || l > 1<<62 {
		return 0, false
	}
	return v * k, true
}

// exactMul is mulConst for a product that cannot overflow.
func exactMul(t *Term) (*Term, int64) {
	x, k := mulConst(t)
	if x == nil {
		return nil, 0
	}
	if _, _, ok := srange(t, 0); !ok {
		return nil, 0
	}
	return x, k
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && a < 0 {
		q--
	}
	return q
}

// rangeCmp simplifies a signed comparison of 64-bit terms; nil if it cannot.
func (c *Ctx) rangeCmp(op Op, a, b *Term) *Term {
	l1, h1, o1 := srange(a, 0)
	l2, h2, o2 := srange(b, 0)
	if !o1 || !o2 {
		return nil
	}
	if op == OSLT {
		if h1 < l2 {
			return tTrue
		}
		if l1 >= h2 {
			return tFalse
		}
	} else {
		if h1 <= l2 {
			return tTrue
		}
		if l1 > h2 {
			return tFalse
		}
	}
	x, k := exactMul(a)
	y, m := exactMul(b)
	switch {
	case x != nil && y != nil && k == m:
		return c.Bin(op, x, y)
	case x != nil && b.isConst():
		v := int64(b.val)
		if op == OSLT {
			v-- // x*k <= v
		}
		return c.Bin(OSLE, x, mkInt(floorDiv(v, k)))
	case y != nil && a.isConst():
		v := int64(a.val)
		if op == OSLE {
			v-- // y*m > v
		}
		return c.Bin(OSLT, mkInt(floorDiv(v, m)), y)
	}
	return nil
}
