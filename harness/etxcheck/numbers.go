package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/zzverif/kit"
)

// The number literals: what they look like, and the value they denote.

var (
	decimalForm = regexp.MustCompile(`^(?:\d+(?:_\d+)*)?(?:\.\d+(?:_\d+)*)?(?:[eE][-+]?\d+(?:_\d+)*)?$`)
	wholeForm   = regexp.MustCompile(`^\d+(?:_\d+)*$`)
	baseForm    = regexp.MustCompile(`^0(?:[xX](?:_?[0-9a-fA-F])+|[bB](?:_?[01])+|[oO](?:_?[0-7])+)$`)
	oldForm     = regexp.MustCompile(`^0(?:_?[0-7])+$`)
)

// denoted gives the value of a literal, and whether it has to be exact; ok
// tells whether the literal is one.
func denoted(lit string) (v *big.Rat, exact, ok bool) {
	plain := strings.ReplaceAll(lit, "_", "")
	digits := func(s string, base int) *big.Rat {
		n := new(big.Int)
		for _, c := range s {
			d, _ := strconv.ParseUint(string(c), 16, 8)
			n.Mul(n, big.NewInt(int64(base)))
			n.Add(n, big.NewInt(int64(d)))
		}
		return new(big.Rat).SetInt(n)
	}
	switch {
	case baseForm.MatchString(lit):
		base := map[byte]int{'x': 16, 'X': 16, 'b': 2, 'B': 2, 'o': 8, 'O': 8}[plain[1]]
		return digits(plain[2:], base), true, true
	case oldForm.MatchString(lit):
		return digits(plain[1:], 8), true, true
	case wholeForm.MatchString(lit) && len(plain) > 1 && plain[0] == '0':
		return nil, false, false // 08
	case decimalForm.MatchString(lit) && lit != "" && !strings.ContainsAny(lit[:1], "eE"):
		mantissa, exp, hasExp := strings.Cut(strings.ToLower(plain), "e")
		whole, frac, _ := strings.Cut(mantissa, ".")
		v = digits(whole+frac, 10)
		ten := func(n int) *big.Rat {
			return new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil))
		}
		v.Quo(v, ten(len(frac)))
		if hasExp {
			n, err := strconv.Atoi(exp)
			if err != nil || n > 5000 || n < -5000 {
				return nil, false, false
			}
			if n >= 0 {
				v.Mul(v, ten(n))
			} else {
				v.Quo(v, ten(-n))
			}
			return v, false, true
		}
		d := new(big.Int).Set(v.Denom())
		for d.Bit(0) == 0 && d.Sign() > 0 {
			d.Rsh(d, 1)
		}
		return v, d.Cmp(big.NewInt(1)) == 0, true
	}
	return nil, false, false
}

// A numberPlace is where a literal stands.
type numberPlace struct{ before, after string }

var numberPlaces = []numberPlace{
	{"x = ", "\n"}, {"x = -", "\n"}, {"x = [p, ", ", q]\n"}, {"x = f(", ")\n"}, {"x = p[", "]\n"}, {"x = p + ", " * q\n"},
	{"x = {k: ", "}\n"}, {"type t enum {\n\tk: ", "\n}\n"}, {"x = \"${", "}\"\n"}, {"x = if ", " { y }\n"}, {"val x = ", ""},
}

// numbersOf lists the numbers of a tree.
func numbersOf(a *etx.AST) []*etx.ValueNumber {
	var out []*etx.ValueNumber
	nodesOf(a, func(n any) {
		if x, ok := n.(*etx.ValueNumber); ok {
			out = append(out, x)
		}
	})
	return out
}

// p05 decides a literal: "number PLACE LITERAL".
func p05(desc string) string {
	f := strings.SplitN(desc, " ", 3)
	n, _ := strconv.Atoi(f[1])
	lit := f[2]
	src := numberPlaces[n].before + lit + numberPlaces[n].after
	want, exact, ok := denoted(lit)
	tree, err := parse(src)
	if err != nil {
		if ok {
			return fmt.Sprintf("%q is rejected: %v", src, err)
		}
		return ""
	}
	nums := numbersOf(tree)
	for _, x := range nums {
		if x.Value == nil || x.Value.IsInf() {
			return fmt.Sprintf("the value of %s in %q is %v", x.Source, src, x.Value)
		}
	}
	if !ok {
		return ""
	}
	if len(nums) != 1 {
		return fmt.Sprintf("%q has %d numbers", src, len(nums))
	}
	if msg := closeTo(nums[0].Value, want, exact); msg != "" {
		return fmt.Sprintf("the value of %s in %q %s", lit, src, msg)
	}
	if n > 0 {
		return ""
	}
	// The literal as printed.
	out := nums[0].FormattedString()
	again, err := parse("x = " + out + "\n")
	if err != nil {
		return fmt.Sprintf("%s is printed as %q, which is rejected: %v", lit, out, err)
	}
	nums2 := numbersOf(again)
	if len(nums2) != 1 || nums2[0].Value.Cmp(nums[0].Value) != 0 {
		return fmt.Sprintf("%s is printed as %q, which is another value", lit, out)
	}
	if v, _, ok := denoted(out); !ok || v.Cmp(want) != 0 {
		return fmt.Sprintf("%s is printed as %q, which is another value", lit, out)
	}
	clone := nums[0].Clone()
	if clone.Value.Cmp(nums[0].Value) != 0 {
		return fmt.Sprintf("the clone of %s has the value %s", lit, clone.Value.Text('g', 40))
	}
	return ""
}

func closeTo(got *big.Float, want *big.Rat, exact bool) string {
	r, _ := got.Rat(nil)
	if r == nil {
		return "is not a number"
	}
	if r.Cmp(want) == 0 {
		return ""
	}
	if exact {
		return fmt.Sprintf("is %s", got.Text('g', 60))
	}
	diff := new(big.Rat).Sub(r, want)
	diff.Abs(diff)
	bound := new(big.Rat).Mul(want, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 52)))
	if diff.Cmp(bound) > 0 {
		return fmt.Sprintf("is %s, too far off", got.Text('g', 60))
	}
	return ""
}

func numbersRun(c *kit.Ctx) {
	ph := phase(c)
	slot := c.Slot(0)
	var seen, steps int64
	try := func(place int, lit string) bool {
		if c.Stop() {
			return false
		}
		if !c.Mine() {
			return true
		}
		seen++
		steps += int64(len(lit))
		desc := fmt.Sprintf("number %d %s", place, lit)
		slot.Begin(desc)
		var msg string
		if m := kit.Guard(func() { msg = p05(desc) }); m != "" {
			msg = m
		}
		slot.End()
		if msg != "" {
			c.Violate(desc, "%s", msg)
		}
		if seen == 100 || seen == 2000 {
			c.Sample(lit)
		}
		return msg == ""
	}
	all := func(place int, prefix, alphabet string, from, to int) bool {
		for n := from; n <= to; n++ {
			idx := make([]int, n)
			for {
				b := []byte(prefix)
				for _, i := range idx {
					b = append(b, alphabet[i])
				}
				if !try(place, string(b)) {
					return false
				}
				k := n - 1
				for k >= 0 {
					idx[k]++
					if idx[k] < len(alphabet) {
						break
					}
					idx[k] = 0
					k--
				}
				if k < 0 {
					break
				}
			}
		}
		return true
	}
	t := c.Pick(0, 1)
	if !all(0, "", "0127._e", 1, 6+t) || !all(0, "", "0123456789", 1, 4+t) || !all(0, "", "19._e-+", 1, 6+t) || !all(0, "0.", "0123456789", 1, 4+t) {
		return
	}
	ph("decimal")
	if !all(0, "0x", "0123456789abcdefABCDEF_", 1, 3+t) || !all(0, "0X", "09afAF_", 1, 5) || !all(0, "0b", "01_", 1, 9+t) || !all(0, "0B", "01", 1, 9) ||
		!all(0, "0o", "01234567_", 1, 4+t) || !all(0, "0O", "017_", 1, 5) || !all(0, "0", "0123456789_", 1, 4+t) {
		return
	}
	ph("bases")
	for _, m := range []string{"0", "1", "7", "12", "123456789", "1.5", "0.1", ".5", "9.99", "0.0001", "4_0", "1.2_5"} {
		for _, e := range []string{"e", "E", "e+", "E+", "e-", "E-"} {
			for n := 0; n <= c.Pick(330, 2000); n++ {
				if !try(0, fmt.Sprintf("%s%s%d", m, e, n)) {
					return
				}
			}
		}
	}
	for n := 9; n < 40; n++ {
		for _, m := range []string{"1", "0.1", "123"} {
			for _, e := range []string{"e", "e-", "E+"} {
				if !try(0, m+e+strings.Repeat("9", n)) {
					return
				}
			}
		}
	}
	ph("exponents")
	// Long literals.
	pow := func(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }
	five := big.NewInt(5)
	for n := 1; n <= c.Pick(300, 1500); n++ {
		lits := []string{
			strings.Repeat("9", n), "1" + strings.Repeat("0", n), "1" + strings.Repeat("0", n) + "1", strings.Repeat("37", n), "0." + strings.Repeat("3", n),
			"0x" + strings.Repeat("f", n), "0x1" + strings.Repeat("0", n) + "1", "0x" + strings.Repeat("a5", n), "0X8" + strings.Repeat("0", n),
			"0b" + strings.Repeat("1", n), "0b1" + strings.Repeat("0", n) + "1", "0b" + strings.Repeat("10", n), "0o" + strings.Repeat("7", n), "0o1" + strings.Repeat("0", n) + "1",
			"0" + strings.Repeat("7", n), "01" + strings.Repeat("0", n) + "1", "0" + strings.Repeat("53", n),
			pow(n).String(), new(big.Int).Sub(pow(n), big.NewInt(1)).String(), new(big.Int).Add(pow(n), big.NewInt(1)).String(),
			"1" + strings.Repeat("_000", n), "0x" + strings.Repeat("_f", n), strings.Repeat("9", n) + ".5", "1" + strings.Repeat("0", n) + ".25",
		}
		// 2^-n written out.
		frac := new(big.Int).Exp(five, big.NewInt(int64(n)), nil).String()
		frac = strings.Repeat("0", n-len(frac)) + frac
		lits = append(lits, "0."+frac, "."+frac, "3."+frac, strings.Repeat("9", n)+"."+frac)
		for _, l := range lits {
			if !try(0, l) {
				return
			}
		}
	}
	ph("long")
	for pl := range numberPlaces[1:] {
		if !all(pl+1, "", "019._e", 1, 4) || !all(pl+1, "0x", "0aF_", 1, 3) || !all(pl+1, "0b", "01", 1, 3) || !all(pl+1, "0o", "07", 1, 3) || !all(pl+1, "0", "078", 1, 3) {
			return
		}
		for n := 10; n < 40; n++ {
			for _, l := range []string{strings.Repeat("9", n), "0x" + strings.Repeat("f", n), "0b" + strings.Repeat("1", n), "0" + strings.Repeat("7", n), "0." + strings.Repeat("7", n), "1e" + strconv.Itoa(n)} {
				if !try(pl+1, l) {
					return
				}
			}
		}
	}
	ph("places")
	c.Count("states", seen)
	c.Count("transitions", steps)
	c.Count("traces_validated_against_impl", parses.Load())
}
