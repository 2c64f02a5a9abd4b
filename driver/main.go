// The driver rebuilds one check from the current sources of the repository
// (instrumented through a build overlay, never in place) and runs it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

const modPath = "github.com/hexbee-net/etxe"

// A variant is one way to build a check; the first that builds is used.
type variant struct {
	name string
	tags string
	make func(repo, out string) (map[string]string, error)
}

type checkSpec struct {
	pkg      string // harness package
	variants []variant
}

func plain(repo, out string) (map[string]string, error) { return nil, nil }

func dagInstr(conc, maps bool) func(repo, out string) (map[string]string, error) {
	return func(repo, out string) (map[string]string, error) {
		p, err := loadPkg(repo, "./pkg/dag")
		if err != nil {
			return nil, err
		}
		need, err := instrumentConc(p, conc, maps)
		if err != nil {
			return nil, err
		}
		return p.write(out, need)
	}
}

func etxMemo(repo, out string) (map[string]string, error) {
	p, err := loadPkg(repo, "./pkg/etx")
	if err != nil {
		return nil, err
	}
	need, n, err := instrumentMemo(p)
	if err != nil {
		return nil, err
	}
	if n == 0 {
		return nil, fmt.Errorf("no parser construction to memoize")
	}
	return p.write(out, need)
}

func etxPoints(repo, out string) (map[string]string, error) {
	p, err := loadPkg(repo, "./pkg/etx")
	if err != nil {
		return nil, err
	}
	native := usesNativeSync(p)
	access := packageAccesses(p)
	need, err := instrumentConc(p, true, true)
	if err != nil {
		return nil, err
	}
	// Points first: the memoized construction then stays one step.
	if native {
		access = nil
	}
	if err := instrumentPoints(p, need, access); err != nil {
		return nil, err
	}
	memo, _, err := instrumentMemo(p)
	if err != nil {
		return nil, err
	}
	for f := range memo {
		need[f] = true
	}
	return p.write(out, need)
}

var (
	dagSeq  = []variant{{"maps", "", dagInstr(false, true)}, {"plain-fallback", "", plain}}
	dagConc = []variant{{"channels+maps", "mcconc", dagInstr(true, true)}, {"plain-fallback", "", plain}}
	etxFast = []variant{{"memoized-parser", "mcmemo", etxMemo}, {"plain", "", plain}}
	etxConc = []variant{{"statement-points", "mcpoints", etxPoints}, {"plain-fallback", "", plain}}
)

var specs = map[string]checkSpec{}

func init() {
	for _, p := range []string{"D01", "D02", "D03", "D04", "D05", "D08", "D09"} {
		specs[p] = checkSpec{"dagcheck", dagSeq}
	}
	for _, p := range []string{"D06", "D07"} {
		specs[p] = checkSpec{"dagcheck", dagConc}
	}
	for _, p := range []string{"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P15", "P16", "P17", "P18"} {
		specs[p] = checkSpec{"etxcheck", etxFast}
	}
	specs["P14"] = checkSpec{"etxcheck", etxConc}
}

func main() {
	begin := time.Now()
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "", "directory of the framework")
	scratch := flag.String("scratch", "", "scratch directory")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "seed")
	limit := flag.Float64("limit", 0, "time limit of the exploration in seconds")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("variant", "", "use this build variant")
	setup := flag.Bool("setup", false, "build everything, run nothing")
	flag.Parse()
	if *replay != "" {
		data, err := os.ReadFile(*replay)
		if err != nil {
			fatal(err)
		}
		var r struct{ Property string }
		if err := json.Unmarshal(data, &r); err != nil {
			fatal(err)
		}
		*prop = r.Property
	}
	if *limit == 0 {
		*limit = 150
		if *tier == "thorough" {
			*limit = 700
		}
	}
	if *setup {
		done := map[string]bool{}
		for _, id := range ids() {
			s := specs[id]
			for _, v := range s.variants {
				if done[s.pkg+v.name] {
					continue
				}
				done[s.pkg+v.name] = true
				if _, err := build(*repo, *verif, *scratch, s, v); err != nil {
					fmt.Printf("build of %s (%s): %v\n", s.pkg, v.name, err)
				}
			}
		}
		return
	}
	s, ok := specs[*prop]
	if !ok {
		fatal(fmt.Errorf("unknown property %q", *prop))
	}
	var bin string
	var used variant
	for _, v := range s.variants {
		if *only != "" && v.name != *only {
			continue
		}
		b, err := build(*repo, *verif, *scratch, s, v)
		if err != nil {
			fmt.Printf("variant %s does not build: %v\n", v.name, err)
			continue
		}
		bin, used = b, v
		break
	}
	if bin == "" {
		fatal(fmt.Errorf("the check cannot be built from the current sources"))
	}
	args := []string{"-prop", *prop, "-tier", *tier, "-variant", used.name}
	if *replay != "" {
		args = append(args, "-replay", *replay)
	} else {
		args = append(args, "-evidence", filepath.Join(*verif, "evidence", *prop+".json"), "-replays", filepath.Join(*verif, "replays"),
			"-limit", fmt.Sprint(*limit), "-seed", fmt.Sprint(*seed), "-elapsed", fmt.Sprint(time.Since(begin).Seconds()))
	}
	cmd := exec.Command(bin, args...)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	cmd.Dir = *scratch
	cmd.Env = append(os.Environ(), "TMPDIR="+*scratch, "VERIF_DIR="+*verif)
	if err := cmd.Run(); err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			os.Exit(ee.ExitCode())
		}
		fatal(err)
	}
}

func ids() []string {
	var out []string
	for k := range specs {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func fatal(err error) {
	fmt.Println("error:", err)
	os.Exit(2)
}

// build compiles the check with the harness and the instrumented sources laid
// over the repository.
func build(repo, verif, scratch string, s checkSpec, v variant) (string, error) {
	out := filepath.Join(scratch, "src-"+s.pkg+"-"+strings.ReplaceAll(v.name, "+", "-"))
	if err := os.MkdirAll(out, 0o755); err != nil {
		return "", err
	}
	ov, err := v.make(repo, out)
	if err != nil {
		return "", err
	}
	if ov == nil {
		ov = map[string]string{}
	}
	for _, pkg := range []string{"mc", "kit", s.pkg} {
		files, err := filepath.Glob(filepath.Join(verif, "harness", pkg, "*.go"))
		if err != nil {
			return "", err
		}
		for _, f := range files {
			ov[filepath.Join(repo, "zzverif", pkg, filepath.Base(f))] = f
		}
	}
	data, err := json.Marshal(map[string]any{"Replace": ov})
	if err != nil {
		return "", err
	}
	ovFile := filepath.Join(out, "overlay.json")
	if err := os.WriteFile(ovFile, data, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(out, "check")
	args := []string{"build", "-mod=readonly", "-buildvcs=false", "-overlay", ovFile, "-o", bin}
	if v.tags != "" {
		args = append(args, "-tags", v.tags)
	}
	args = append(args, "./zzverif/"+s.pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	if o, err := cmd.CombinedOutput(); err != nil {
		msg := string(o)
		if len(msg) > 3000 {
			msg = msg[:3000]
		}
		return "", fmt.Errorf("%v\n%s", err, msg)
	}
	return bin, nil
}
