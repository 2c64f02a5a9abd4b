package main

import (
	"reflect"
	"strings"

	"github.com/hexbee-net/etxe/zzverif/kit"
)

// sources runs f on sources that are not made from a tree: whatever the parser
// accepts among them is a program too.
func sources(c *kit.Ctx, f func(src string) string) {
	ph := phase(c)
	each := func(src string, toks []tok) string { return f(src) }
	sequences(c, alphabet, 1, upTo(len(frames)), each)
	sequences(c, alphabet, 2, upTo(len(frames)), each)
	if c.Thorough() {
		sequences(c, alphabet, 3, upTo(len(frames)), each)
	} else {
		sequences(c, core(), 3, []int{0, 1, 3, 4, 7, 8, 10, 13, 14, 20, 22}, each)
	}
	ph("sequences")
	others := fewTokens()
	if !c.Thorough() {
		others = nil
		for _, a := range fewTokens() {
			if strings.Contains("a\n}(,", a.text) {
				others = append(others, a)
			}
		}
	}
	mutants(c, plan{budget: 1, firsts: append(roots(), holes()...), styles: []int{0}}, others, each)
	if c.Thorough() {
		mutants(c, plan{budget: 2, firsts: append(roots(), holes()...), styles: []int{1}}, fewTokens(), each)
	}
	ph("mutants")
	var places, inHere [][2]string
	for _, b := range []string{"a = %", "a = [%]", "b {\n\tk = %\n}", "a = \"x${%}\"", "a = {% : x}"} {
		before, after, _ := strings.Cut(b, "%")
		places = append(places, [2]string{before + `"`, `"` + after + "\n"}, [2]string{before + "'", "'" + after + "\n"})
	}
	for _, b := range []string{"a = <<EOF\n%EOF\n", "a = <<-E\n%\nE\n", "b {\n\tk = <<E\n%\nE\n}\n"} {
		before, after, _ := strings.Cut(b, "%")
		inHere = append(inHere, [2]string{before, after})
	}
	for n := 0; n <= c.Pick(2, 3); n++ {
		spell(c, stringAtoms, n, places, f)
		spell(c, hereAtoms, n, inHere, f)
	}
	var runes []string
	for i := 1; i < 0x180; i++ {
		runes = append(runes, string(rune(i)), "a"+string(rune(i))+"b")
	}
	runes = append(runes, "\u2028", "\ufeff", "\u200b", "\uffff", "\U0001F600", "\U0010FFFF")
	labels := [][2]string{{"b \"", "\" {}\n"}, {"b x '", "' \"y\" {\n\tc \"l\" {}\n}\n"}, {"b {\n\tc \"", "\" {\n\t\tk = 1\n\t}\n}\n"}}
	spell(c, runes, 1, append(append([][2]string{}, places...), labels...), f)
	for n := 0; n <= 2; n++ {
		spell(c, stringAtoms, n, labels, f)
	}
	spell(c, fewAtoms, c.Pick(3, 5), places[:2], f)
	spell(c, fewHere, c.Pick(3, 6), inHere[:1], f)
	ph("strings")
	comments := [][2]string{{"//", "\n"}, {"#", "\n"}, {"/*", "*/"}, {"a = [ //", "\n1 ]\n"}, {"b { /*", "*/\n}\n"}, {"a = { //", "\n}\n"}, {"type t enum {\n//", "\nA: 1\n}\n"}, {"def f() {\n/*", "*/\na\n}\n"}, {"a = 1 //", "\nb = 2\n"}}
	for n := 0; n <= c.Pick(2, 3); n++ {
		spell(c, letters("/*#\n\r \té\"x\\%{"), n, comments, f)
	}
	spell(c, allBytes(), 1, comments, f)
	ph("comments")
	literals := [][2]string{{"a = ", "\n"}, {"a = -", " * x\n"}, {"type t enum { A: ", "\n}\n"}, {"a = f(", ").x\n"}}
	for n := 1; n <= c.Pick(4, 6); n++ {
		spell(c, letters("019xob_.eE-"), n, literals[:c.Pick(2, 4)], f)
	}
	ph("numbers")
}

func fewTokens() []atom {
	var few []atom
	for _, a := range alphabet {
		if strings.Contains(` a 1 = : { } ( ] , . - -> if default /*c*/ `, " "+a.text+" ") || a.text == "\n" {
			few = append(few, a)
		}
	}
	return few
}

// Properties that a source decides alone.

func p08Source(src string) string {
	got, err := parse(src)
	if err != nil {
		return ""
	}
	if msg := family(got); msg != "" {
		return msg
	}
	return regrown(got, false)
}

func p09Source(src string) string {
	got, err := parse(src)
	if err != nil {
		return ""
	}
	return clones(reflect.ValueOf(got), false)
}

func p14Source(src string) string {
	got, err := parse(src)
	if err != nil {
		return ""
	}
	return readOnly(got)
}

const whatSources = "; all accepted ones among the token sequences of length 1 and 2 over 38 tokens and 3 over 24 (thorough: 3 over 38) in 30 frames, single-token changes of the small programs, strings and heredocs of up to 3 (5) atoms, comments of up to 2 (3) characters in 9 places, number-like words of up to 4 (6) characters"
