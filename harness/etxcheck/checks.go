package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/hexbee-net/etxe/zzverif/kit"
)

// phase reports the time that parts of a check take (VERIF_STDERR only).
func phase(c *kit.Ctx) func(name string) {
	t := time.Now()
	return func(name string) {
		if c.Worker == 0 && os.Getenv("VERIF_STDERR") != "" {
			fmt.Fprintf(os.Stderr, "%s %.1fs parses %d\n", name, time.Since(t).Seconds(), parses.Load())
		}
		t = time.Now()
	}
}

// standard is the set of programs that most properties are decided on.
func standard(c *kit.Ctx, f func(p *program) string) {
	ph := phase(c)
	all := upTo(len(styles))
	programs(c, plan{budget: 1, firsts: append(roots(), holes()...), styles: all, all: true}, f)
	ph("budget 1, all layouts")
	programs(c, plan{budget: 2, firsts: roots(), styles: all}, f)
	ph("roots 2")
	programs(c, plan{budget: 2, firsts: holes(), styles: all}, f)
	ph("holes 2")
	ladders(c, f)
	ph("ladders")
	if c.Thorough() {
		programs(c, plan{budget: 2, firsts: append(roots(), holes()...), styles: all, all: true}, f)
		programs(c, plan{budget: 3, firsts: roots(), styles: all}, f)
		programs(c, plan{budget: 3, firsts: holes(), styles: all}, f)
	}
	c.Count("traces_validated_against_impl", parses.Load())
}

const whatPrograms = "every program of the generator (12 root constructs and 31 expression contexts) within 2 deviations (thorough: 3), in 6 layouts, plus size and nesting ladders"

func programCheck(f func(p *program) string, extra func(c *kit.Ctx), what string) *kit.Check {
	return &kit.Check{
		What: whatPrograms + what,
		Run: func(c *kit.Ctx) {
			listedInputs(c, bytesCases[c.Prop])
			if extra != nil {
				extra(c)
			}
			standard(c, f)
		},
		Replay: func(c *kit.Ctx, desc string) { replay(c, desc, f) },
	}
}

func replay(c *kit.Ctx, desc string, f func(p *program) string) {
	var msg string
	run := func() {
		switch {
		case strings.HasPrefix(desc, "gen "), strings.HasPrefix(desc, "plain "):
			msg = f(fromDesc(desc))
		case strings.HasPrefix(desc, "ladder "):
			msg = f(ladder(desc))
		case strings.HasPrefix(desc, "tower "), strings.HasPrefix(desc, "mix "):
			msg = runTower(desc)
		case strings.HasPrefix(desc, "ops "):
			msg = opsCase(desc)
		case strings.HasPrefix(desc, "long "):
			msg = longHistory(desc, func() {})
		case strings.HasPrefix(desc, "history "):
			msg = history(desc)
		case strings.HasPrefix(desc, "inter"):
			msg = sideBySide(desc)
		case strings.HasPrefix(desc, "read "), strings.HasPrefix(desc, "big "):
			msg = readCase(desc)
		case strings.HasPrefix(desc, "string "), strings.HasPrefix(desc, "heredoc "):
			msg = stringCase(desc)
		case strings.HasPrefix(desc, "number "):
			msg = p05(desc)
		case strings.HasPrefix(desc, "bytes "):
			msg = bytesCases[c.Prop](unhex(desc))
		case strings.HasPrefix(desc, "tokens") && bytesCases[c.Prop] != nil:
			msg = bytesCases[c.Prop](join(undescribe(desc)))
		case strings.HasPrefix(desc, "tokens"):
			as := undescribe(desc)
			msg = judge(c.Prop, join(as), tokensOf(as))
		default:
			panic("unknown case " + desc)
		}
	}
	if m := kit.Guard(run); m != "" {
		msg = m
	}
	if msg != "" {
		c.Violate(desc, "%s", msg)
	}
}

// What decides a property on a source alone.
var bytesCases = map[string]func(src string) string{
	"P01": p01,
	"P10": p10,
	"P08": p08Source,
	"P09": p09Source,
	"P11": formatted,
	"P12": stable,
	"P14": p14Source,
	"P15": p15Source,
	"P16": p16Source,
	"P17": p17Source,
	"P18": partsOf,
}

var table = map[string]*kit.Check{
	"P01": {
		What:   "every string of 1 and 2 bytes, 3 of 36 letters, up to 4-11 letters of the alphabets that matter to one state of the lexer, each on its own and in frames; 49 towers of up to 500 (thorough: 1500) levels, complete and cut off, and every two of them in turn; the small programs cut, shortened and with foreign text put in at every byte; token sequences",
		Run:    bytesRun,
		Replay: func(c *kit.Ctx, desc string) { replay(c, desc, nil) },
	},
	"P02": {
		What: whatPrograms + "; every token sequence of length 1 and 2 over 38 tokens and 3 over 24 of them (thorough: 3 and 4) in 30 frames, every single-token change of the small programs: whatever is accepted is accounted for",
		Run: func(c *kit.Ctx) {
			sequenceRuns(c, "P02")
			standard(c, p02)
		},
		Replay: func(c *kit.Ctx, desc string) { replay(c, desc, p02) },
	},
	"P03": programCheck(p03, func(c *kit.Ctx) {
		ph := phase(c)
		programs(c, plan{budget: 2, firsts: roots(), layout: true}, p03)
		programs(c, plan{budget: 1, firsts: holes(), layout: true}, p03)
		ph("layout")
	}, ", and with every single deviation from the plain layout"),
	"P04": {
		What:   "every sequence of up to 4 (thorough: 5) of the 19 binary operators, up to 2 (3) in each of 20 places, with operands of 144 kinds one or two at a time, with every placement of one or two nested pairs of parentheses, and every conditional whose parts hold up to one operator or another conditional, against the documented precedence table",
		Run:    operatorsRun,
		Replay: func(c *kit.Ctx, desc string) { replay(c, desc, nil) },
	},
	"P05": {
		What:   "every literal of up to 6 (thorough: 7) characters over the alphabets of the decimal forms and up to 3-9 over those of the other bases, exponents up to 330 (2000), literals of 1 to 300 (1500) digits in every base and the powers of two, in 11 places, against exact rational arithmetic",
		Run:    numbersRun,
		Replay: func(c *kit.Ctx, desc string) { replay(c, desc, nil) },
	},
	"P06": {
		What:   "every string body of up to 3 (thorough: 4) of 24 atoms in 9 places and both quotes, 4 in one place, 5 (7) of 12 atoms; every heredoc body of up to 3 (4) of 22 atoms in 7 places with 6 delimiters, 4 in one, 5 (7) of 9 atoms; every character up to U+017F; bodies of up to 500 repetitions of every pair; delimiter look-alikes, against a reader of strings that does not use the parser",
		Run:    stringsRun,
		Replay: func(c *kit.Ctx, desc string) { replay(c, desc, nil) },
	},
	"P07": programCheck(p07, nil, ""),
	"P08": programCheck(p08, func(c *kit.Ctx) { sources(c, bytesCases["P08"]) }, whatSources),
	"P09": programCheck(p09, func(c *kit.Ctx) { sources(c, bytesCases["P09"]) }, whatSources),
	"P10": {
		What:   "every division of 100 short texts into reads, with pauses, scratch writes, the end of the text with and after the last bytes; every division of the small programs into two (the smallest: three) or equal parts; every point at which the reader fails, with four errors; texts of 512 bytes to 64 KiB (thorough: 128) around the sizes of buffers; ParseString, ParseBytes and Parse on all programs, token pairs and byte pairs",
		Run:    readersRun,
		Replay: func(c *kit.Ctx, desc string) { replay(c, desc, func(p *program) string { return p10(p.text.src) }) },
	},
	"P11": programCheck(p11, func(c *kit.Ctx) { sources(c, bytesCases["P11"]) }, whatSources),
	"P12": programCheck(p12, func(c *kit.Ctx) { sources(c, bytesCases["P12"]) }, whatSources),
	"P14": {
		What:   "every pair of about 150 calls (parsing three ways, formatting, cloning, overwriting the result) on 31 texts in one process, every triple of 20 of them, each compared with the call in a fresh process; all small programs one after another, backwards, and each twice; every schedule with one preemption (at the first 8, thorough: 64, visits of every statement of the package) of two calls on all pairs of 12 (thorough: 31) texts and of two readers of one tree (thorough: also two preemptions for the smallest), with a happens-before check of package variables; formatting, walking and cloning of every program leaves it as it was (quick: inner expressions within 1 deviation): " + whatPrograms,
		Run:    effectsRun,
		Replay: func(c *kit.Ctx, desc string) { replay(c, desc, p14) },
	},
	"P15": programCheck(p15, func(c *kit.Ctx) { sources(c, p15Source) }, whatSources),
	"P16": programCheck(p16, func(c *kit.Ctx) { sources(c, p16Source) }, whatSources),
	"P17": programCheck(p17, func(c *kit.Ctx) { sources(c, p17Source) }, whatSources),
	"P18": programCheck(p18, func(c *kit.Ctx) { sources(c, partsOf) }, "; of each of these programs every part"+whatSources),
	"P13": {
		What: "every token sequence of length 1 and 2 over 38 tokens and 3 over 24 of them (thorough: 3 and 4) in 30 frames, every single-token change of the small programs",
		Run: func(c *kit.Ctx) {
			sequenceRuns(c, "P13")
			c.Count("traces_validated_against_impl", parses.Load())
		},
		Replay: func(c *kit.Ctx, desc string) { replay(c, desc, nil) },
	},
}

func sequenceRuns(c *kit.Ctx, prop string) {
	f := func(src string, toks []tok) string { return judge(prop, src, toks) }
	ph := phase(c)
	sequences(c, alphabet, 1, upTo(len(frames)), f)
	sequences(c, alphabet, 2, upTo(len(frames)), f)
	ph("sequences 2")
	if c.Thorough() {
		sequences(c, alphabet, 3, upTo(len(frames)), f)
	} else {
		sequences(c, core(), 3, upTo(len(frames)), f)
	}
	ph("sequences 3")
	few := fewTokens()
	mutants(c, plan{budget: 1, firsts: append(roots(), holes()...), styles: []int{0}}, few, f)
	ph("mutants 1")
	if c.Thorough() {
		sequences(c, core(), 4, upTo(len(frames)), f)
		mutants(c, plan{budget: 2, firsts: append(roots(), holes()...), styles: []int{1}}, few, f)
	}
}
