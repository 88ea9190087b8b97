package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const subjectPrefix = "github.com/zyedidia/gpeg"

func isSubject(p string) bool { return strings.HasPrefix(p, subjectPrefix) }

var allowPkgs = map[string]bool{
	"errors": true, "io": true, "bytes": true, "strings": true, "strconv": true, "unicode": true,
	"unicode/utf8": true, "sort": true, "slices": true, "cmp": true, "maps": true, "iter": true,
	"regexp/syntax": true, "math/bits": true, "math": true, "encoding/binary": true,
	"internal/stringslite": true, "internal/bytealg": true, "sync/atomic": true, "sync": true,
	"internal/itoa": true, "container/heap": true, "container/list": true, "bufio": true, "internal/byteorder": true,
	"internal/strconv": true, "io/ioutil": true,
}

var noInit = map[string]bool{"errors": true, "encoding/binary": true, "internal/bytealg": true, "sync": true,
	"sync/atomic": true, "internal/stringslite": true, "iter": true, "internal/byteorder": true}

type Engine struct {
	initSkips sync.Map // calls by initialisers the engine could not run
	threads bool // the harness runs threads
	overlay map[string]string // files to read instead of others (for tests of the checks)
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	units    map[string]*ssa.Function
	models   map[string]*ssa.Function
	vms      []*VM
	cache    *qcache
	st       solverStats
	thorough bool
	prop     string
	seed     int

	mu         sync.Mutex
	methodC    map[string]*ssa.Function
	replayBin  string
	tmp        string
	violation  *Cand
	vioOut     string
	unconf     []*Cand
	unconfMsg  []string
	candSeen   map[string]int
	candCh     chan candJob
	candWG     sync.WaitGroup
	kfHits     map[string]*Cand
}

type candJob struct {
	u *Unit
	c *Cand
}

func (e *Engine) allowed(p string) bool {
	return allowPkgs[p] || strings.HasPrefix(p, "verif/harness") || isSubject(p)
}

func (e *Engine) initAllowed(p string) bool { return e.allowed(p) && !noInit[p] }

func (e *Engine) fn(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		panic(engineErr("package not loaded: " + pkg))
	}
	f := p.Func(name)
	if f == nil {
		panic(engineErr("no function " + pkg + "." + name))
	}
	return f
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) methodNamed(t types.Type, name string) *ssa.Function {
	sel := e.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	sig := sel.Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return nil
	}
	if b, ok := sig.Results().At(0).Type().(*types.Basic); !ok || b.Kind() != types.String {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0")
}

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"gosym:"}, args...)...)
	os.Exit(2)
}

var bndRe = regexp.MustCompile(`(\w+)=(\S+)`)

func main() {
	prop := flag.String("prop", "", "property id")
	pkg := flag.String("pkg", "", "harness package path below verif/harness")
	dir := flag.String("dir", "/verif/harness", "harness module")
	tier := flag.String("tier", "quick", "quick or thorough")
	limit := flag.Float64("limit", 240, "total seconds of exploration")
	only := flag.String("unit", "", "regexp of units to run")
	evid := flag.String("evidence", "", "evidence file")
	workers := flag.Int("workers", 8, "workers")
	solver := flag.String("solver", "", "solver binary")
	verbose := flag.Bool("v", false, "verbose")
	ovl := flag.String("overlay", "", "FROM=TO: read TO in place of the source file FROM (to try the checks on changes)")
	replay := flag.String("replay", "", "violation file to replay natively")
	flag.Parse()
	t0 := time.Now()
	if *solver == "" {
		*solver = "z3"
		if _, err := exec.LookPath("z3-new"); err == nil {
			*solver = "z3-new"
		}
	}
	if *replay != "" {
		replayFile(*replay, *dir)
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	e := &Engine{pkgs: map[string]*ssa.Package{}, units: map[string]*ssa.Function{}, models: map[string]*ssa.Function{},
		cache: newQCache(), thorough: *tier == "thorough", prop: *prop, seed: seed,
		methodC: map[string]*ssa.Function{}, candSeen: map[string]int{}, kfHits: map[string]*Cand{}}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(err)
	}
	e.tmp = tmp
	defer os.RemoveAll(tmp)
	if from, to, ok := strings.Cut(*ovl, "="); ok {
		e.overlay = map[string]string{from: to}
	}

	units := e.load(*dir, "verif/harness/"+*pkg, *only)
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	// a package may ask for more room for what its initialisers allocate
	if b, err := os.ReadFile(filepath.Join(*dir, *pkg, *pkg+".go")); err == nil {
		if _, r, ok := strings.Cut(string(b), "\n// engine: slab="); ok {
			r, _, _ = strings.Cut(r, "\n")
			if n, err := strconv.Atoi(strings.TrimSpace(r)); err == nil {
				slabN = n
			}
		}
	}
	buildErr := make(chan error, 1)
	go func() { buildErr <- e.buildReplay(*dir, *pkg) }()

	var wg sync.WaitGroup
	initErr := make([]string, *workers)
	e.vms = make([]*VM, *workers)
	for i := range e.vms {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			vm := newVM(e, i)
			e.vms[i] = vm
			initErr[i] = vm.boot("verif/harness/"+*pkg, *solver)
		}(i)
	}
	wg.Wait()
	for _, s := range initErr {
		if s != "" {
			fatal("initialisation: " + s)
		}
	}
	if *verbose {
		fmt.Fprintf(os.Stderr, "booted in %.1fs (slab %d)\n", time.Since(t0).Seconds(), e.vms[0].slabUsed)
	}
	if err := <-buildErr; err != nil {
		fatal("building the replay binary: ", err)
	}
	if *verbose {
		fmt.Fprintf(os.Stderr, "replay built in %.1fs\n", time.Since(t0).Seconds())
	}
	e.candCh = make(chan candJob, 1000)
	for i := 0; i < 2; i++ {
		go e.confirmLoop()
	}

	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	start := time.Now()
	var ran []*Unit
	rest := 0.0
	for _, u := range units {
		rest += u.Budget
	}
	for _, u := range units {
		if e.violation != nil {
			break
		}
		remain := *limit - time.Since(start).Seconds()
		share := remain * u.Budget / rest
		rest -= u.Budget
		if share < 2 {
			share = 2
		}
		e.explore(u, time.Now().Add(time.Duration(share*float64(time.Second))))
		e.candWG.Wait()
		ran = append(ran, u)
		if *verbose {
			fmt.Fprintf(os.Stderr, "%-28s paths %-8d ok %-8d assumed %-6d limits %d unk %d asserts %d/%d dec %d steps %d cands %d wall %.2fs pending %d reach %v errs %v %v\n",
				u.Name, u.paths, u.okPaths, u.assumed, u.limits, u.unknowns, u.asserts, u.symAsserts, u.decisions, u.steps, len(u.cands), u.wall, u.pending, u.reach, u.errs, u.limitMsgs)
		}
	}
	validated, mism := 0, []string{}
	if e.violation == nil {
		validated, mism = e.validate(ran)
	}
	if *verbose {
		for i, c := range e.unconf {
			fmt.Fprintf(os.Stderr, "UNCONFIRMED %s %s %q vec=%v: %s\n", c.Unit, c.Kind, c.Msg, c.Vec, e.unconfMsg[i])
		}
		for _, m := range mism {
			fmt.Fprintln(os.Stderr, "MISMATCH", m)
		}
	}
	e.report(*evid, *tier, ran, units, validated, mism, time.Since(t0).Seconds())
	for _, vm := range e.vms {
		vm.sol.close()
	}
	os.RemoveAll(tmp)
	if e.violation != nil {
		os.Exit(1)
	}
	fmt.Printf("OK property=%s tier=%s units=%d queries=%d solver=%.1fs wall=%.1fs\n", e.prop, *tier, len(ran), e.st.queries, float64(e.st.nanos)/1e9, time.Since(t0).Seconds())
}

func (e *Engine) load(dir, path, only string) []*Unit {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv(), Overlay: map[string][]byte{}}
	for from, to := range e.overlay {
		b, err := os.ReadFile(to)
		if err != nil {
			fatal(err)
		}
		cfg.Overlay[from] = b
	}
	pk, err := packages.Load(cfg, path)
	if err != nil {
		fatal("load: ", err)
	}
	for _, p := range pk {
		for _, er := range p.Errors {
			fatal("load: ", er)
		}
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	e.prog = prog
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	var wg sync.WaitGroup
	for _, p := range prog.AllPackages() {
		if e.allowed(p.Pkg.Path()) {
			wg.Add(1)
			go func(p *ssa.Package) { defer wg.Done(); p.Build() }(p)
		}
	}
	wg.Wait()
	var units []*Unit
	var re *regexp.Regexp
	if only != "" {
		re = regexp.MustCompile(only)
	}
	for _, p := range pk {
		sp := e.pkgs[p.PkgPath]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "U_") {
					continue
				}
				u := &Unit{Name: fd.Name.Name, Budget: 10, Steps: 3_000_000}
				e.units[u.Name] = sp.Func(u.Name)
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
						if strings.HasPrefix(t, "unit:") {
							for _, m := range bndRe.FindAllStringSubmatch(t, -1) {
								switch m[1] {
								case "budget":
									u.Budget, _ = strconv.ParseFloat(m[2], 64)
								case "steps":
									u.Steps, _ = strconv.Atoi(m[2])
								case "tier":
									u.tier = m[2]
								}
							}
						} else if strings.HasPrefix(t, "bounds:") {
							u.Bounds = strings.TrimSpace(t[7:])
						} else if u.Bounds != "" {
							u.Bounds += " " + t
						}
					}
				}
				u.KF, u.kfMsg = knownFinding(filepath.Join(filepath.Dir(dir), "known-findings.txt"), e.prop, u.Name)
				if u.tier == "thorough" && !e.thorough {
					continue
				}
				if re != nil && !re.MatchString(u.Name) {
					continue
				}
				units = append(units, u)
			}
		}
	}
	if len(units) == 0 {
		fatal("no units in " + path)
	}
	return units
}

// boot runs the package initialisers once in the VM's base heap.
func (vm *VM) boot(path, solver string) (msg string) {
	vm.sol = newSolver(vm.ctx, vm.eng.cache, &vm.eng.st, solver)
	vm.errStr = vm.rtype(types.Typ[types.String])
	vm.p = &Path{known: map[*Expr]bool{}, maxSteps: 2_000_000_000}
	vm.initing = true
	defer func() {
		vm.initing = false
		if x := recover(); x != nil {
			switch t := x.(type) {
			case *targetPanic:
				msg = "panic " + t.msg
			case pathEnd:
				msg = t.msg
			default:
				msg = fmt.Sprint(x)
			}
			for f := vm.top; f != nil; f = f.caller {
				msg += " < " + f.fn.name
			}
		}
	}()
	vm.call(vm.fnOf(vm.eng.pkgs[path].Func("init")), nil, nil)
	return ""
}

func (e *Engine) buildReplay(dir, pkg string) error {
	var names []string
	for n := range e.units {
		names = append(names, n)
	}
	sort.Strings(names)
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\n\nimport (\n\th \"verif/harness/%s\"\n\t\"verif/harness/sym\"\n)\n\nfunc main() {\n\tsym.ReplayMain(map[string]func(){\n", pkg)
	for _, n := range names {
		fmt.Fprintf(&b, "\t\t%q: h.%s,\n", n, n)
	}
	b.WriteString("\t})\n}\n")
	src := filepath.Join(e.tmp, "main.go")
	if err := os.WriteFile(src, b.Bytes(), 0o644); err != nil {
		return err
	}
	ov := map[string]map[string]string{"Replace": {filepath.Join(dir, "zzreplay", "main.go"): src}}
	for from, to := range e.overlay {
		ov["Replace"][from] = to
	}
	args := []string{"build"}
	env := goEnv()
	var err error
	if e.threads, err = e.rewriteSync(dir, pkg, ov["Replace"]); err != nil {
		return err
	}
	if e.threads {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	oj, _ := json.Marshal(ov)
	ovf := filepath.Join(e.tmp, "overlay.json")
	if err := os.WriteFile(ovf, oj, 0o644); err != nil {
		return err
	}
	e.replayBin = filepath.Join(e.tmp, "replay")
	cmd := exec.Command("go", append(args, "-overlay", ovf, "-o", e.replayBin, "./zzreplay")...)
	cmd.Dir = dir
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

// rewriteSync makes the subject's packages import the scheduler's versions of
// sync and sync/atomic, if the harness uses threads.
func (e *Engine) rewriteSync(dir, pkg string, replace map[string]string) (bool, error) {
	cmd := exec.Command("go", "list", "-deps", "-f", "{{.ImportPath}}|{{.Dir}}|{{join .GoFiles \",\"}}", "./"+pkg)
	cmd.Dir = dir
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return false, fmt.Errorf("go list: %v", err)
	}
	if !strings.Contains(string(out), "verif/harness/vsync|") {
		return false, nil
	}
	n := 0
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.Split(l, "|")
		if len(f) != 3 || !isSubject(f[0]) {
			continue
		}
		for _, name := range strings.Split(f[2], ",") {
			path := filepath.Join(f[1], name)
			fset := token.NewFileSet()
			from := path
			if to := e.overlay[path]; to != "" {
				from = to
			}
			tree, err := parser.ParseFile(fset, from, nil, parser.ParseComments)
			if err != nil {
				return true, err
			}
			found := false
			for _, im := range tree.Imports {
				switch im.Path.Value {
				case "\"sync\"":
					im.Path.Value = "\"verif/harness/vsync\""
					if im.Name == nil {
						im.Name = ast.NewIdent("sync")
					}
					found = true
				case "\"sync/atomic\"":
					im.Path.Value = "\"verif/harness/vsync/vatomic\""
					if im.Name == nil {
						im.Name = ast.NewIdent("atomic")
					}
					found = true
				}
			}
			if !found {
				continue
			}
			var b bytes.Buffer
			if err := printer.Fprint(&b, fset, tree); err != nil {
				return true, err
			}
			n++
			to := filepath.Join(e.tmp, fmt.Sprintf("sync%d.go", n))
			if err := os.WriteFile(to, b.Bytes(), 0o644); err != nil {
				return true, err
			}
			replace[path] = to
		}
	}
	return true, nil
}

// replayFile feeds a recorded violation to the native build.
func replayFile(path, dir string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	var v struct {
		Property, Unit, Tier string
		Vector               []uint64
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fatal(err)
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(tmp)
	e := &Engine{pkgs: map[string]*ssa.Package{}, units: map[string]*ssa.Function{}, tmp: tmp, thorough: v.Tier == "thorough"}
	pkg := strings.ToLower(v.Property)
	e.units[v.Unit] = nil
	if err := e.buildReplay(dir, pkg); err != nil {
		fatal(err)
	}
	res, crash := e.native([]replayIn{{Unit: v.Unit, Vec: v.Vector}}, 60*time.Second)
	for _, r := range res {
		fmt.Printf("%s %s: %s %s\n", v.Property, v.Unit, r.Result, r.Msg)
	}
	if crash != "" {
		fmt.Println(crash)
	}
}

// knownFinding looks a unit up in the known-findings file: a line
//
//	known: property=P unit=U message="..." what fails
//
// says that unit U of property P (one fixed input) fails with that message.
func knownFinding(file, prop, unit string) (what, msg string) {
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		m := regexp.MustCompile(`^known: property=(\S+) unit=(\S+) message="([^"]*)" (.*)$`).FindStringSubmatch(l)
		if m != nil && m[1] == prop && m[2] == unit {
			return m[4], m[3]
		}
	}
	return "", ""
}
