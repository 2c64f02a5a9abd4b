// Package kit runs a check: it shards the work over processes, watches them
// for crashes and hangs, confirms violations by replaying them in a fresh
// process, and writes the evidence file.
package kit

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A Check decides one property.
type Check struct {
	// Run explores this worker's share and reports through c.
	Run func(c *Ctx)
	// Replay runs the single case desc.
	Replay func(c *Ctx, desc string)
	// InProc checks use one process with several goroutines.
	InProc bool
	// Assumptions go to the evidence file.
	Assumptions []string
	// What is explored, in words.
	What string
}

const (
	slotSize = 1 << 14
	slots    = 16
)

// Ctx is what a running check reports to.
type Ctx struct {
	Prop, Tier, Variant string
	Worker, Workers     int
	Replaying           bool

	deadline time.Time
	mu       sync.Mutex
	res      Result
	stopped  atomic.Bool
	mem      []byte
	index    atomic.Int64
	resFile  string
}

// Violation of the property.
type Violation struct {
	Desc string
	Msg  string
}

// Result of a worker.
type Result struct {
	Counts     map[string]int64
	Maxes      map[string]int64
	Samples    []string
	Violations []Violation
	Known      []string
	Capped     []string
	Done       bool
}

// Thorough tells whether the thorough tier runs.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Mine shards: it returns true for one worker at every call.
func (c *Ctx) Mine() bool {
	i := c.index.Add(1) - 1
	return int(i%int64(c.Workers)) == c.Worker
}

// Count adds to a counter of the evidence.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.res.Counts[name] += n
	c.mu.Unlock()
}

// Max keeps the largest value of a measure.
func (c *Ctx) Max(name string, n int64) {
	c.mu.Lock()
	if n > c.res.Maxes[name] {
		c.res.Maxes[name] = n
	}
	c.mu.Unlock()
}

// Sample records a case for the evidence.
func (c *Ctx) Sample(s string) {
	c.mu.Lock()
	if len(c.res.Samples) < 3 {
		c.res.Samples = append(c.res.Samples, s)
	}
	c.mu.Unlock()
}

// Violate reports that the case desc breaks the property.
func (c *Ctx) Violate(desc, format string, args ...any) {
	c.mu.Lock()
	if len(c.res.Violations) < 5 {
		c.res.Violations = append(c.res.Violations, Violation{desc, fmt.Sprintf(format, args...)})
	}
	c.mu.Unlock()
	c.stopped.Store(true)
}

// KnownFinding reports that a listed defect is still there.
func (c *Ctx) KnownFinding(what string) {
	c.mu.Lock()
	c.res.Known = append(c.res.Known, what)
	c.mu.Unlock()
}

// Capped says that the exploration is not complete.
func (c *Ctx) Capped(why string) {
	c.mu.Lock()
	for _, w := range c.res.Capped {
		if w == why {
			c.mu.Unlock()
			return
		}
	}
	c.res.Capped = append(c.res.Capped, why)
	c.mu.Unlock()
}

// Findings lists what known_findings.txt has for the property: the input of
// each and what is wrong with it.
func (c *Ctx) Findings() []string {
	data, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(data), "\n") {
		if rest, ok := strings.CutPrefix(l, "finding: property="+c.Prop+" "); ok {
			out = append(out, rest)
		}
	}
	return out
}

// Stop tells a check to finish: a violation was found or time is up.
func (c *Ctx) Stop() bool {
	if c.stopped.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.Capped("time limit of the tier")
		c.stopped.Store(true)
		return true
	}
	return false
}

// A Slot tells the parent process what is being run.
type Slot struct{ b []byte }

// Slot returns slot i, one per goroutine.
func (c *Ctx) Slot(i int) *Slot {
	if c.mem == nil {
		return &Slot{make([]byte, slotSize)}
	}
	return &Slot{c.mem[i*slotSize : (i+1)*slotSize]}
}

// Begin records the case about to be run.
func (s *Slot) Begin(desc string) {
	binary.LittleEndian.PutUint32(s.b[8:], 0)
	n := copy(s.b[16:], desc)
	if n < len(desc) {
		n = 0
	}
	binary.LittleEndian.PutUint64(s.b, uint64(time.Now().UnixNano()))
	binary.LittleEndian.PutUint32(s.b[8:], uint32(n)+1)
}

// End records that the case is over.
func (s *Slot) End() { binary.LittleEndian.PutUint32(s.b[8:], 0) }

func (s *Slot) read() (desc string, at time.Time, ok bool) {
	n := binary.LittleEndian.Uint32(s.b[8:])
	if n == 0 || int(n) > slotSize {
		return "", time.Time{}, false
	}
	return string(s.b[16 : 16+n-1]), time.Unix(0, int64(binary.LittleEndian.Uint64(s.b))), true
}

// Guard runs f and turns a panic into an error message.
func Guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
			if os.Getenv("VERIF_STACK") != "" {
				msg += "\n" + string(debug.Stack())
			}
		}
	}()
	f()
	return ""
}

// Main runs the checks of a binary.
func Main(checks map[string]*Check) {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	variant := flag.String("variant", "", "build variant")
	evidence := flag.String("evidence", "", "evidence file")
	replays := flag.String("replays", "", "replay directory")
	limit := flag.Float64("limit", 300, "seconds for the exploration")
	seed := flag.Int("seed", 1, "seed")
	start := flag.Float64("elapsed", 0, "seconds spent before")
	worker := flag.Int("worker", -1, "internal")
	workers := flag.Int("workers", 1, "internal")
	memFile := flag.String("mem", "", "internal")
	resFile := flag.String("res", "", "internal")
	replay := flag.String("replay", "", "replay the case in this file")
	flag.Parse()
	ck := checks[*prop]
	if ck == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	debug.SetMaxStack(128 << 20)
	if *worker >= 0 || *replay != "" {
		c := &Ctx{Prop: *prop, Tier: *tier, Variant: *variant, Worker: *worker, Workers: *workers, resFile: *resFile}
		c.res.Counts = map[string]int64{}
		c.res.Maxes = map[string]int64{}
		c.deadline = time.Now().Add(time.Duration(*limit * float64(time.Second)))
		if *memFile != "" {
			f, err := os.OpenFile(*memFile, os.O_RDWR, 0)
			if err == nil {
				c.mem, err = syscall.Mmap(int(f.Fd()), 0, slots*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			}
			if err != nil {
				fmt.Println("mmap:", err)
				os.Exit(2)
			}
		}
		if *replay != "" {
			c.Replaying = true
			data, err := os.ReadFile(*replay)
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			var r replayFile
			if err := json.Unmarshal(data, &r); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			ck.Replay(c, r.Case)
			if len(c.res.Violations) > 0 {
				fmt.Println("REPRODUCED:", c.res.Violations[0].Msg)
				os.Exit(1)
			}
			fmt.Println("not reproduced")
			os.Exit(0)
		}
		if f := os.Getenv("VERIF_PROFILE"); f != "" && *worker == 0 {
			if out, err := os.Create(f); err == nil {
				_ = pprof.StartCPUProfile(out)
				defer out.Close()
			}
		}
		ck.Run(c)
		pprof.StopCPUProfile()
		c.mu.Lock()
		c.res.Done = true
		data, _ := json.Marshal(c.res)
		c.mu.Unlock()
		if err := os.WriteFile(*resFile, data, 0o644); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		os.Exit(0)
	}
	os.Exit(parent(ck, *prop, *tier, *variant, *evidence, *replays, *limit, *seed, *start))
}

type replayFile struct {
	Property string `json:"property"`
	Message  string `json:"message"`
	Case     string `json:"case"`
	How      string `json:"how"`
}

type proc struct {
	cmd    *exec.Cmd
	mem    []byte
	res    string
	out    *bytes.Buffer
	exited chan error
	err    error
	gone   bool
	hung   string
}

func hangLimit(tier string) time.Duration { return 45 * time.Second }

func parent(ck *Check, prop, tier, variant, evidence, replays string, limit float64, seed int, elapsed float64) int {
	begin := time.Now()
	dir, err := os.MkdirTemp("", "verifrun")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	if ck.InProc {
		n = 1
	}
	var procs []*proc
	for i := 0; i < n; i++ {
		p := &proc{res: filepath.Join(dir, fmt.Sprintf("res%d", i)), out: &bytes.Buffer{}, exited: make(chan error, 1)}
		memName := filepath.Join(dir, fmt.Sprintf("mem%d", i))
		if err := os.WriteFile(memName, make([]byte, slots*slotSize), 0o644); err != nil {
			fmt.Println(err)
			return 2
		}
		f, err := os.OpenFile(memName, os.O_RDWR, 0)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		p.mem, err = syscall.Mmap(int(f.Fd()), 0, slots*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		args := []string{"-prop", prop, "-tier", tier, "-variant", variant, "-worker", fmt.Sprint(i), "-workers", fmt.Sprint(n),
			"-mem", memName, "-res", p.res, "-limit", fmt.Sprint(limit)}
		p.cmd = exec.Command(self, args...)
		p.cmd.Stdout = p.out
		p.cmd.Stderr = p.out
		if os.Getenv("VERIF_STDERR") != "" {
			p.cmd.Stderr = os.Stderr
		}
		p.cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOGC=800")
		if !ck.InProc {
			p.cmd.Env = append(p.cmd.Env, "GOMAXPROCS=2")
		} else {
			p.cmd.Env = append(os.Environ(), "GOMEMLIMIT=16GiB")
		}
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := p.cmd.Start(); err != nil {
			fmt.Println(err)
			return 2
		}
		go func() { p.exited <- p.cmd.Wait() }()
		procs = append(procs, p)
	}
	var cands []Violation
	running := n
	killAll := func() {
		for _, p := range procs {
			if !p.gone {
				_ = p.cmd.Process.Kill()
			}
		}
	}
	hardEnd := begin.Add(time.Duration(limit*float64(time.Second)) + 60*time.Second)
	timedOut := false
	for running > 0 {
		time.Sleep(20 * time.Millisecond)
		for _, p := range procs {
			if p.gone {
				continue
			}
			select {
			case p.err = <-p.exited:
				p.gone = true
				running--
				if p.err != nil && p.hung == "" && !timedOut {
					// It crashed: find what it was running.
					found := false
					for s := 0; s < slots; s++ {
						sl := Slot{p.mem[s*slotSize : (s+1)*slotSize]}
						if desc, _, ok := sl.read(); ok {
							found = true
							cands = append(cands, Violation{desc, "the process died: " + firstLines(p.out.String())})
						}
					}
					if !found {
						fmt.Printf("worker failed: %v\n%s\n", p.err, p.out.String())
						killAll()
						return 2
					}
				}
			default:
				for s := 0; s < slots; s++ {
					sl := Slot{p.mem[s*slotSize : (s+1)*slotSize]}
					desc, at, ok := sl.read()
					if ok && time.Since(at) > hangLimit(tier) {
						p.hung = desc
						cands = append(cands, Violation{desc, fmt.Sprintf("no answer within %s", hangLimit(tier))})
						_ = p.cmd.Process.Kill()
						break
					}
				}
			}
		}
		if len(cands) > 0 {
			killAll()
		}
		if time.Now().After(hardEnd) && !timedOut {
			timedOut = true
			killAll()
		}
	}
	lost := 0
	total := Result{Counts: map[string]int64{}, Maxes: map[string]int64{}}
	for _, p := range procs {
		data, err := os.ReadFile(p.res)
		if err != nil {
			if len(cands) == 0 {
				if timedOut {
					total.Capped = append(total.Capped, "hard time limit")
					continue
				}
				fmt.Printf("worker left no result: %v\n%s\n", p.err, p.out.String())
				return 2
			}
			lost++
			continue
		}
		var r Result
		if err := json.Unmarshal(data, &r); err != nil {
			fmt.Println("bad result:", err)
			return 2
		}
		for k, v := range r.Counts {
			total.Counts[k] += v
		}
		for k, v := range r.Maxes {
			if v > total.Maxes[k] {
				total.Maxes[k] = v
			}
		}
		total.Samples = append(total.Samples, r.Samples...)
		total.Known = append(total.Known, r.Known...)
		cands = append(cands, r.Violations...)
		for _, w := range r.Capped {
			dup := false
			for _, x := range total.Capped {
				dup = dup || x == w
			}
			if !dup {
				total.Capped = append(total.Capped, w)
			}
		}
	}
	sort.SliceStable(cands, func(i, j int) bool { return len(cands[i].Desc) < len(cands[j].Desc) })
	// Confirm in a fresh process.
	confirmed := 0
	var unconfirmed []string
	for i, v := range cands {
		if i >= 6 || confirmed >= 2 {
			break
		}
		rf := replayFile{Property: prop, Message: v.Msg, Case: v.Desc,
			How: fmt.Sprintf("./run.sh replay <this file>   (property %s, variant %s)", prop, variant)}
		data, _ := json.MarshalIndent(rf, "", "  ")
		sum := sha256.Sum256([]byte(v.Desc))
		path := filepath.Join(replays, prop+"-"+hex.EncodeToString(sum[:4])+".json")
		_ = os.MkdirAll(replays, 0o755)
		if err := os.WriteFile(path, data, 0o644); err != nil {
			fmt.Println(err)
			return 2
		}
		ok := false
		hang := strings.HasPrefix(v.Msg, "no answer within")
		tries := 20
		if hang {
			tries = 1
		}
		for t := 0; t < tries && !ok; t++ {
			cmd := exec.Command(self, "-prop", prop, "-tier", tier, "-variant", variant, "-replay", path)
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
			if err := cmd.Start(); err != nil {
				fmt.Println(err)
				return 2
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			select {
			case err := <-done:
				ok = err != nil
				if ok && !strings.Contains(out.String(), "REPRODUCED") {
					v.Msg = "the process died: " + firstLines(out.String())
				}
			case <-time.After(hangLimit(tier)):
				_ = cmd.Process.Kill()
				<-done
				ok = true
				v.Msg = fmt.Sprintf("no answer within %s", hangLimit(tier))
			}
		}
		if ok {
			confirmed++
			fmt.Printf("%s: %s\n  case: %s\n", prop, v.Msg, clip(v.Desc, 600))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			unconfirmed = append(unconfirmed, v.Msg+" | "+clip(v.Desc, 200))
			_ = os.Remove(path)
		}
	}
	if len(cands) > 0 && confirmed == 0 && lost > 0 {
		if ck.InProc && os.Getenv("VERIF_SERIAL") == "" {
			// The goroutines may have disturbed each other: one at a time.
			_ = os.Setenv("VERIF_SERIAL", "1")
			return parent(ck, prop, tier, variant, evidence, replays, limit, seed, elapsed+time.Since(begin).Seconds())
		}
		total.Capped = append(total.Capped, "a worker died without a reproducible case")
	}
	sort.Strings(total.Known)
	seenKnown := map[string]bool{}
	for _, k := range total.Known {
		if !seenKnown[k] {
			seenKnown[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
		}
	}
	for _, u := range unconfirmed {
		fmt.Println("not reproduced (ignored):", u)
	}
	cov := map[string]any{"exhaustive": len(total.Capped) == 0 && variantExact(variant), "build_variant": variant, "explored": ck.What}
	for k, v := range total.Counts {
		cov[k] = v
	}
	for k, v := range total.Maxes {
		cov[k] = v
	}
	for _, k := range []string{"states", "transitions", "traces_validated_against_impl"} {
		if _, ok := cov[k]; !ok {
			cov[k] = 0
		}
	}
	samples := []string{}
	for _, s := range total.Samples {
		dup := len(samples) >= 6
		for _, x := range samples {
			dup = dup || x == s
		}
		if !dup {
			samples = append(samples, s)
		}
	}
	cov["samples"] = samples
	if len(total.Capped) > 0 {
		cov["capped_by"] = total.Capped
	}
	if len(unconfirmed) > 0 {
		cov["unreproduced"] = unconfirmed
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": ck.Assumptions,
		"wall_s": elapsed + time.Since(begin).Seconds(), "violations": confirmed,
	}
	data, _ := json.MarshalIndent(ev, "", "  ")
	if evidence != "" {
		if err := os.WriteFile(evidence, append(data, '\n'), 0o644); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	fmt.Printf("%s %s: states=%v transitions=%v executions=%v capped=%v violations=%d (%.1fs)\n", prop, tier, cov["states"], cov["transitions"],
		cov["traces_validated_against_impl"], total.Capped, confirmed, time.Since(begin).Seconds())
	if confirmed > 0 {
		return 1
	}
	return 0
}

func variantExact(v string) bool { return !strings.Contains(v, "fallback") }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLines(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 4 {
		lines = lines[:4]
	}
	return strings.Join(lines, " / ")
}
