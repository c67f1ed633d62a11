package main

// Linear forms over integer atoms, and the polyhedra domain built on them:
// a conjunction of linear inequalities, decided by Fourier-Motzkin projection.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Atom is an index into the table of atoms (unknown quantities).
type Atom int32

type LT struct {
	A Atom
	K int64
}

// Lin is C + sum K*A, with the terms sorted by atom.
type Lin struct {
	C int64
	T []LT
}

func K(c int64) Lin       { return Lin{C: c} }
func LA(a Atom) Lin       { return Lin{T: []LT{{a, 1}}} }
func (l Lin) IsK() bool   { return len(l.T) == 0 }
func (l Lin) Is0() bool   { return len(l.T) == 0 && l.C == 0 }
func (l Lin) Key() string { var b strings.Builder; l.key(&b); return b.String() }
func (l Lin) key(b *strings.Builder) {
	for _, t := range l.T {
		if t.K >= 0 {
			b.WriteByte('+')
		}
		b.WriteString(strconv.FormatInt(t.K, 10))
		b.WriteByte('a')
		b.WriteString(strconv.Itoa(int(t.A)))
	}
	if l.C >= 0 {
		b.WriteByte('+')
	}
	b.WriteString(strconv.FormatInt(l.C, 10))
}

func mulOv(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	r := a * b
	if r/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0
	}
	return r
}
func addOv(a, b int64) int64 {
	r := a + b
	if (a > 0 && b > 0 && r < 0) || (a < 0 && b < 0 && r >= 0) {
		return 0
	}
	return r
}

// combine computes p*l + q*m
func combine(l Lin, p int64, m Lin, q int64) Lin {
	r := Lin{C: addOv(mulOv(l.C, p), mulOv(m.C, q))}
	i, j := 0, 0
	if n := len(l.T) + len(m.T); n > 0 {
		r.T = make([]LT, 0, n)
	}
	for i < len(l.T) || j < len(m.T) {
		var a Atom
		var k int64
		switch {
		case j >= len(m.T) || (i < len(l.T) && l.T[i].A < m.T[j].A):
			a, k = l.T[i].A, mulOv(l.T[i].K, p)
			i++
		case i >= len(l.T) || m.T[j].A < l.T[i].A:
			a, k = m.T[j].A, mulOv(m.T[j].K, q)
			j++
		default:
			a, k = l.T[i].A, addOv(mulOv(l.T[i].K, p), mulOv(m.T[j].K, q))
			i++
			j++
		}
		if k != 0 {
			r.T = append(r.T, LT{a, k})
		}
	}
	return r
}
func (l Lin) Add(m Lin) Lin    { return combine(l, 1, m, 1) }
func (l Lin) Sub(m Lin) Lin    { return combine(l, 1, m, -1) }
func (l Lin) AddK(c int64) Lin { return Lin{addOv(l.C, c), l.T} }
func (l Lin) Neg() Lin         { return combine(l, -1, Lin{}, 0) }
func (l Lin) Mul(k int64) Lin  { return combine(l, k, Lin{}, 0) }
func (l Lin) Eq(m Lin) bool    { return l.Sub(m).Is0() }
func (l Lin) Coef(a Atom) int64 {
	for _, t := range l.T {
		if t.A == a {
			return t.K
		}
	}
	return 0
}
func (l Lin) Has(a Atom) bool { return l.Coef(a) != 0 }

// IsAtom reports whether l is exactly one atom.
func (l Lin) IsAtom() (Atom, bool) {
	if l.C == 0 && len(l.T) == 1 && l.T[0].K == 1 {
		return l.T[0].A, true
	}
	return 0, false
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// tighten divides an inequality by the gcd of its coefficients, rounding the constant down.
func tighten(l Lin) Lin {
	if len(l.T) == 0 {
		return l
	}
	g := int64(0)
	for _, t := range l.T {
		g = gcd(g, t.K)
	}
	if g <= 1 {
		return l
	}
	r := Lin{T: make([]LT, len(l.T))}
	for i, t := range l.T {
		r.T[i] = LT{t.A, t.K / g}
	}
	c := l.C / g
	if l.C%g != 0 && l.C < 0 {
		c--
	}
	r.C = c
	return r
}

func termKey(l Lin) string {
	var b strings.Builder
	for _, t := range l.T {
		b.WriteString(strconv.FormatInt(t.K, 36))
		b.WriteByte('a')
		b.WriteString(strconv.FormatInt(int64(t.A), 36))
		b.WriteByte('.')
	}
	return b.String()
}

const fmCap = 260

// reduce removes duplicate inequalities (same terms: keep the tightest) and trivial ones.
// ok is false when a contradiction is found.
func reduceGE(cs []Lin) (out []Lin, ok bool) {
	best := make(map[uint64]int, len(cs))
	out = make([]Lin, 0, len(cs))
	for _, c := range cs {
		c = tighten(c)
		if len(c.T) == 0 {
			if c.C < 0 {
				return nil, false
			}
			continue
		}
		k := termHash(c, 1)
		for {
			i, seen := best[k]
			if !seen {
				best[k] = len(out)
				out = append(out, c)
				break
			}
			if sameTerms(out[i], c) {
				if c.C < out[i].C {
					out[i] = c
				}
				break
			}
			k++
		}
	}
	// opposite pairs
	for _, c := range out {
		k := termHash(c, -1)
		for {
			j, seen := best[k]
			if !seen {
				break
			}
			if oppositeTerms(out[j], c) {
				// c >= 0 and -c + d >= 0
				if out[j].C+c.C < 0 {
					return nil, false
				}
				break
			}
			k++
		}
	}
	return out, true
}

func oppositeTerms(a, b Lin) bool {
	if len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i].A != b.T[i].A || a.T[i].K != -b.T[i].K {
			return false
		}
	}
	return true
}

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	return h ^ (h >> 29)
}

func termHash(l Lin, sign int64) uint64 {
	h := uint64(0x1234567)
	for _, t := range l.T {
		h = mix(mix(h, uint64(t.A)), uint64(t.K*sign))
	}
	return h
}

type h128 [2]uint64

// setHash identifies a set of inequalities, whatever their order.
func setHash(cs []Lin, salt uint64) h128 {
	var r h128
	for _, c := range cs {
		h := termHash(c, 1)
		a := mix(h, uint64(c.C))
		r[0] += a
		r[1] += mix(mix(a, 0xABCDEF12345), h)
	}
	r[0] = mix(r[0], salt)
	r[1] += salt
	return r
}

// fits: k*l has no coefficient beyond a quarter of the integers.
func fits(l Lin, k int64) bool {
	ok := func(c int64) bool {
		if c == math.MinInt64 || k == math.MinInt64 {
			return false
		}
		a, b := c, k
		if a < 0 {
			a = -a
		}
		if b < 0 {
			b = -b
		}
		return b == 0 || a <= (1<<62-1)/b
	}
	if !ok(l.C) {
		return false
	}
	for _, t := range l.T {
		if !ok(t.K) {
			return false
		}
	}
	return true
}

// eliminate projects atom a out of the inequalities.
func eliminate(cs []Lin, a Atom) []Lin {
	var pos, neg, rest []Lin
	for _, c := range cs {
		switch k := c.Coef(a); {
		case k > 0:
			pos = append(pos, c)
		case k < 0:
			neg = append(neg, c)
		default:
			rest = append(rest, c)
		}
	}
	for _, p := range pos {
		for _, n := range neg {
			kp, kn := p.Coef(a), -n.Coef(a)
			g := gcd(kp, kn)
			if !fits(p, kn/g) || !fits(n, kp/g) {
				continue // dropping a consequence is sound
			}
			rest = append(rest, combine(p, kn/g, n, kp/g))
		}
	}
	return rest
}

// pickElim chooses the atom whose elimination creates the fewest inequalities.
func pickElim(cs []Lin, keep map[Atom]bool) (Atom, bool, int) {
	type pn struct{ p, n int }
	cnt := map[Atom]*pn{}
	for _, c := range cs {
		for _, t := range c.T {
			if keep[t.A] {
				continue
			}
			x := cnt[t.A]
			if x == nil {
				x = &pn{}
				cnt[t.A] = x
			}
			if t.K > 0 {
				x.p++
			} else {
				x.n++
			}
		}
	}
	if len(cnt) == 0 {
		return 0, false, 0
	}
	best, bestCost := Atom(-1), math.MaxInt
	for a, x := range cnt {
		cost := x.p*x.n - x.p - x.n
		if cost < bestCost || (cost == bestCost && a < best) {
			best, bestCost = a, cost
		}
	}
	return best, true, bestCost
}

// infeasible reports whether the inequalities have no rational (tightened) solution.
func infeasible(cs []Lin) bool {
	cs, ok := reduceGE(cs)
	if !ok {
		return true
	}
	for {
		a, more, cost := pickElim(cs, nil)
		if !more {
			return false
		}
		if cost+len(cs) > fmCap {
			return false
		}
		cs, ok = reduceGE(eliminate(cs, a))
		if !ok {
			return true
		}
	}
}

// bounds projects onto one atom and returns its range.
func bounds(cs []Lin, a Atom) (lo, hi int64, hasLo, hasHi bool) {
	keep := map[Atom]bool{a: true}
	cs, ok := reduceGE(cs)
	if !ok {
		return 0, -1, true, true
	}
	for {
		x, more, cost := pickElim(cs, keep)
		if !more {
			break
		}
		if cost+len(cs) > fmCap {
			// drop everything about x: a sound weakening
			var rest []Lin
			for _, c := range cs {
				if !c.Has(x) {
					rest = append(rest, c)
				}
			}
			cs = rest
			continue
		}
		cs, ok = reduceGE(eliminate(cs, x))
		if !ok {
			return 0, -1, true, true
		}
	}
	for _, c := range cs {
		k := c.Coef(a)
		if k > 0 { // k*a + C >= 0  -> a >= -C/k
			v := ceilDiv(-c.C, k)
			if !hasLo || v > lo {
				lo, hasLo = v, true
			}
		} else if k < 0 {
			v := floorDiv(c.C, -k)
			if !hasHi || v < hi {
				hi, hasHi = v, true
			}
		}
	}
	return
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

// linString renders a linear form with atom names.
func (e *Engine) linString(l Lin) string {
	var b strings.Builder
	for i, t := range l.T {
		switch {
		case t.K == 1 && i == 0:
		case t.K == 1:
			b.WriteString(" + ")
		case t.K == -1 && i == 0:
			b.WriteString("-")
		case t.K == -1:
			b.WriteString(" - ")
		case t.K > 0 && i > 0:
			fmt.Fprintf(&b, " + %d*", t.K)
		case t.K < 0 && i > 0:
			fmt.Fprintf(&b, " - %d*", -t.K)
		default:
			fmt.Fprintf(&b, "%d*", t.K)
		}
		b.WriteString(e.atomName(t.A))
	}
	if l.C != 0 || len(l.T) == 0 {
		if l.C >= 0 && len(l.T) > 0 {
			fmt.Fprintf(&b, " + %d", l.C)
		} else if l.C < 0 && len(l.T) > 0 {
			fmt.Fprintf(&b, " - %d", -l.C)
		} else {
			fmt.Fprintf(&b, "%d", l.C)
		}
	}
	return b.String()
}

func sortedAtoms(m map[Atom]bool) []Atom {
	var r []Atom
	for a := range m {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
