package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

var (
	flagRepo    = flag.String("repo", "/repo", "repository under verification")
	flagVerif   = flag.String("verif", "/verif", "verification directory")
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "", "quick or thorough")
	flagDump    = flag.String("dump", "", "directory for SMT scripts")
	flagCover   = flag.Bool("cover", false, "report unreachable exits")
	flagV       = flag.Bool("v", false, "verbose")
	flagOnly    = flag.String("only", "", "only roots containing this text")
	flagNoRepl  = flag.Bool("noreplay", false, "do not search for failing inputs")
	flagSSA     = flag.String("ssa", "", "print the SSA of a function")
	flagObls    = flag.Bool("obls", false, "list obligations")
	flagCallers = flag.String("callers", "", "print callers")
)

func main() {
	flag.Parse()
	os.Exit(run())
}

func run() (code int) {
	start := time.Now()
	tier := *flagTier
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	d := &Driver{prop: *flagProp, tier: tier, verbose: *flagV, dump: *flagDump}
	defer func() {
		if e := recover(); e != nil {
			msg := fmt.Sprint(e)
			if x, ok := e.(specErr); ok {
				msg = x.msg
			}
			if *flagV {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
			d.failures = append(d.failures, &Failure{Root: "gover", Msg: msg})
			code = d.report(start)
		}
	}()
	sf := newSpecFile()
	sf.Options = map[string]string{}
	d.sf = sf
	loadSpec(filepath.Join(*flagVerif, "specs", *flagProp+".spec"), sf)
	pats := []string{"./...", "gopkg.in/irc.v4"}
	prog, err := loadProgram(*flagRepo, "moderncsqlite,pam", pats...)
	if err != nil {
		d.failures = append(d.failures, &Failure{Root: "load", Msg: err.Error()})
		return d.report(start)
	}
	if *flagV {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(start).Seconds())
	}
	d.eng = newEngine(prog, *flagRepo, sf)
	for _, p := range strings.Fields(sf.Options["purefunc"]) {
		d.eng.pureFuncTypes[p] = true
	}
	if *flagSSA != "" {
		for _, fn := range d.match(*flagSSA) {
			fn.WriteTo(os.Stdout)
		}
		return 0
	}
	if *flagV {
		fmt.Fprintf(os.Stderr, "engine ready in %.1fs, %d functions\n", time.Since(start).Seconds(), len(d.eng.funcs))
	}
	if !*flagNoRepl {
		d.replayDone = make(chan struct{})
		go func() {
			d.replayOut, d.replayFound, d.replayRan = d.replay()
			close(d.replayDone)
		}()
	}
	d.decide()
	if d.replayDone != nil {
		<-d.replayDone
	}
	return d.report(start)
}

type knownFinding struct {
	Property   string `json:"property"`
	Obligation string `json:"obligation"` // prefix of the obligation name, without line numbers
	What       string `json:"what"`
}

type findingsFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

var findings *findingsFile

func loadFindings() *findingsFile {
	if findings == nil {
		findings = &findingsFile{}
		if b, err := os.ReadFile(filepath.Join(*flagVerif, "known-findings.json")); err == nil {
			json.Unmarshal(b, findings)
		}
	}
	return findings
}

func (k *knownFinding) matches(prop string, f *Failure) bool {
	return k.Property == prop && f.Obl != nil && k.Obligation == f.Obl.Fn+"/"+f.Obl.Kind+"["+f.Obl.Text+"]"
}

func isKnownFinding(prop string, f *Failure) bool {
	for _, k := range loadFindings().Findings {
		if k.matches(prop, f) {
			return true
		}
	}
	return false
}

func (d *Driver) report(start time.Time) int {
	if *flagObls {
		for _, o := range d.obls {
			fmt.Printf("  %s (%s, %d ms) %s\n", o.Status, o.Backend, o.Millis, o.Name)
		}
	}
	evDir := filepath.Join(*flagVerif, "evidence")
	os.MkdirAll(evDir, 0o755)
	ff := loadFindings()
	var real []*Failure
	known := 0
	reported := map[string]bool{}
	for _, f := range d.failures {
		isKnown := false
		for _, k := range ff.Findings {
			if k.matches(d.prop, f) {
				isKnown = true
				if !reported[k.Obligation] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, k.What)
					reported[k.Obligation] = true
				}
			}
		}
		if isKnown {
			known++
		} else {
			real = append(real, f)
		}
	}
	if d.replayFound && len(real) == 0 {
		real = append(real, &Failure{Root: d.prop, Msg: "the executable form of the contracts fails on the real code (bounded cross-check)"})
	}
	if len(d.obls) == 0 && len(real) == 0 {
		real = append(real, &Failure{Root: d.prop, Msg: "no obligations were generated"})
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	byKind := map[string]int{}
	byBackend := map[string]int{}
	fnObl := map[string]int{}
	for _, o := range d.obls {
		byKind[o.Kind]++
		byBackend[o.Backend]++
		fnObl[o.Fn]++
	}
	var samples []string
	for i, o := range d.obls {
		if len(d.obls) < 12 || i%(len(d.obls)/10+1) == 0 {
			samples = append(samples, fmt.Sprintf("%s: %s by %s in %d ms", o.Name, o.Status, o.Backend, o.Millis))
		}
	}
	var fn []string
	for _, f := range real {
		fn = append(fn, f.Name())
	}
	var assumptions []string
	if d.sf != nil {
		assumptions = append(assumptions, d.sf.Assumptions...)
		for _, g := range d.sf.Global {
			assumptions = append(assumptions, "assumed at entry of every verified function: "+g.Text)
		}
		for _, g := range d.sf.Axioms {
			assumptions = append(assumptions, "axiom: "+g.Text)
		}
		for _, s := range sortedKeys(d.sf.Funcs) {
			for _, c := range d.sf.Funcs[s].Assumes {
				assumptions = append(assumptions, "assumed at entry of "+s+": "+c.Text)
			}
			if d.sf.Funcs[s].Trusted {
				for _, c := range d.sf.Funcs[s].Ensures {
					assumptions = append(assumptions, "assumed contract of "+s+": ensures "+c.Text)
				}
			}
		}
		for _, n := range d.sf.NonNull {
			assumptions = append(assumptions, "assumed non-nil: "+n)
		}
	}
	assumptions = append(assumptions, baseAssumptions...)
	for _, n := range sortedKeys(d.notes) {
		assumptions = append(assumptions, n)
	}
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": seed, "level": "proof", "wall_s": time.Since(start).Seconds(),
		"violations":  len(real),
		"assumptions": assumptions,
		"coverage": map[string]any{
			"obligations": len(d.obls) + len(real) + known, "discharged": len(d.obls), "known_findings": known,
			"checker_cmd":              "bash /verif/check.sh " + d.prop + " " + d.tier,
			"trusted_base":             trustedBase(d),
			"functions_under_contract": sortedKeys(d.contracts),
			"functions_verified":       sortedKeys(d.verified),
			"functions_inlined":        sortedKeys(d.inlined),
			"functions_abstracted":     sortedKeys(d.abstracted),
			"loop_invariants":          sortedKeys(d.invs),
			"obligations_by_kind":      byKind,
			"obligations_by_backend":   byBackend,
			"obligations_by_function":  fnObl,
			"solver_ms":                d.solverMS,
			"verification_units":       d.units,
			"lifted":                   d.lifted,
			"samples":                  samples,
			"failed":                   fn,
			"bounded_cross_check":      fmt.Sprintf("executable form of the contracts run against the real code on generated inputs (bounded, never counted as proved): %d package(s) run without a failing input", d.replayRan),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, d.prop+".json"), b, 0o644)
	if len(real) == 0 {
		fmt.Printf("property %s: %d obligations discharged over %d functions (%d units) in %.1fs\n", d.prop, len(d.obls), len(d.verified), d.units, time.Since(start).Seconds())
		return 0
	}
	rp := filepath.Join(evDir, "replay-"+d.prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %d obligation(s) not discharged\n\n", d.prop, len(real))
	for _, f := range real {
		fmt.Fprintf(&sb, "FAILED OBLIGATION %s\n  verified as part of: %s\n", f.Name(), f.Root)
		if f.Obl != nil {
			fmt.Fprintf(&sb, "  kind: %s\n  at: %s\n  status: %s\n  verifier output:\n%s\n", f.Obl.Kind, f.Obl.Pos, f.Obl.Status, f.Out)
		}
		sb.WriteString("\n")
	}
	fmt.Print(sb.String())
	hard := d.replayFound
	if d.replayDone != nil {
		sb.WriteString("\n=== search for a failing input on the real code ===\n" + d.replayOut)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	if hard {
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", d.prop, rp)
	}
	return 1
}

var baseAssumptions = []string{
	"the go/ssa translation of the source (golang.org/x/tools v0.52.0) and gover's verification condition generator are trusted",
	"each function is verified sequentially: interleavings with other goroutines are not modelled (per-user state is confined to the user goroutine)",
	"external (non-module) functions: arbitrary results, writes only through their pointer and slice arguments; standard library models are listed in functions_abstracted/trusted_base",
	"integers are mathematical with exact wrap-around semantics per machine type; floats are uninterpreted; lengths are below 2^48",
}

func trustedBase(d *Driver) []string {
	l := []string{"gover VC generator", "go/ssa", "z3-new 5.3.2", "z3 4.8.12", "cvc5 1.1.2"}
	for _, n := range sortedKeys(d.assumed) {
		l = append(l, "model: "+n)
	}
	return l
}

// replay runs the executable form of the property's contract against the real
// code, looking for a concrete failing input.
func (d *Driver) replay() (string, bool, int) {
	dir := filepath.Join(*flagVerif, "replay", d.prop)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return "no executable contract for this property\n", false, 0
	}
	tmp, err := os.MkdirTemp("", "gover-replay")
	if err != nil {
		return err.Error(), false, 0
	}
	defer os.RemoveAll(tmp)
	byPkg := map[string][]string{}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		p := filepath.Join(dir, e.Name())
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		first, _, _ := strings.Cut(string(b), "\n")
		pkg := strings.TrimSpace(strings.TrimPrefix(first, "//pkg:"))
		byPkg[pkg] = append(byPkg[pkg], p)
	}
	var out strings.Builder
	found := false
	ran := 0
	var pkgs []string
	for p := range byPkg {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	for _, pkg := range pkgs {
		ov := map[string]string{}
		if pkg == "." {
			ov[filepath.Join(*flagRepo, "zz_verif_harness_test.go")] = filepath.Join(*flagVerif, "replay", "common", "harness_test.go")
		}
		for i, p := range byPkg[pkg] {
			ov[filepath.Join(*flagRepo, pkg, fmt.Sprintf("zz_verif%d_test.go", i))] = p
		}
		b, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(tmp, "overlay.json")
		os.WriteFile(of, b, 0o644)
		cmd := exec.Command("timeout", "300", "go", "test", "-tags", "nosqlite", "-overlay", of, "-run", "TestVerif", "-count=1", "-timeout", "240s", "./"+pkg)
		cmd.Dir = *flagRepo
		cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "VERIF_SCRATCH="+tmp)
		o, err := cmd.CombinedOutput()
		s := string(o)
		if len(s) > 20000 {
			s = s[:20000]
		}
		fmt.Fprintf(&out, "$ go test -overlay ... ./%s\n%s\n", pkg, s)
		if err != nil && strings.Contains(s, "FAILING-INPUT") {
			found = true
		}
		if err == nil {
			ran++
		}
	}
	return out.String(), found, ran
}
