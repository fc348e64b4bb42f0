package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Options struct {
	Repo      string
	Seed      int64
	Tier      string
	StepLimit int64
	Preempt   int
	Workers   int
	Solver    []string
	TimeoutMs int
	Debug     bool
	Bounds    map[string]int
	Modfile   string
}

type Engine struct {
	opts     Options
	prog     *ssa.Program
	fset     *token.FileSet
	pkgs     map[string]*ssa.Package
	sizes    types.Sizes
	run      *Run
	globMu   sync.Mutex
	initSets map[*ssa.Package]map[*ssa.Global]bool
	buildMu  sync.Mutex

	mu       sync.Mutex
	funcs    sync.Map // *ssa.Function -> *cfunc
	gindex   map[*ssa.Global]int
	gtypes   []types.Type
	natives  map[string]nativeFn
	methods  sync.Map
	impl     sync.Map
	hasher   typeutil.Hasher
	errT     types.Type
	module   string
	loadTime time.Duration
	implMu   sync.Mutex
	machines []*Machine
	ptrs     map[string]types.Type
	rtypes   map[string][]*Value
}

// Load type-checks the packages with the overlay in place and prepares SSA.
func Load(opts Options, overlay map[string][]byte, patterns []string) (*Engine, error) {
	t0 := time.Now()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     opts.Repo,
		Overlay: overlay,
		Env:     goEnv(),
	}
	if opts.Modfile != "" {
		cfg.BuildFlags = []string{"-modfile=" + opts.Modfile}
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	e := &Engine{opts: opts, gindex: map[*ssa.Global]int{}, pkgs: map[string]*ssa.Package{}, hasher: typeutil.MakeHasher()}
	e.fset = initial[0].Fset
	e.prog = ssa.NewProgram(e.fset, ssa.InstantiateGenerics)
	seen := map[*packages.Package]bool{}
	var create func(p *packages.Package)
	create = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		keys := make([]string, 0, len(p.Imports))
		for k := range p.Imports {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			create(p.Imports[k])
		}
		if p.Types != nil && !p.IllTyped {
			sp := e.prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
			e.pkgs[p.PkgPath] = sp
			if p.TypesSizes != nil {
				e.sizes = p.TypesSizes
			}
			if p.Module != nil && p.Module.Main {
				e.module = p.Module.Path
			}
		} else if p.PkgPath == "unsafe" {
			e.prog.CreatePackage(p.Types, nil, nil, true)
		}
	}
	for _, p := range initial {
		create(p)
	}
	e.natives = natives()
	e.loadTime = time.Since(t0)
	return e, nil
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GO111MODULE=on")
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := e.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(e.opts.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	} else if i := strings.Index(f, "/src/"); i >= 0 {
		f = f[i+5:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) cfunc(fn *ssa.Function) *cfunc {
	if c, ok := e.funcs.Load(fn); ok {
		return c.(*cfunc)
	}
	c := &cfunc{fn: fn, name: fn.String()}
	// Who is first to ask a context for its channel makes no difference.
	c.whole = c.name == "(*context.cancelCtx).Done"
	key := fn
	if o := fn.Origin(); o != nil {
		key = o
	}
	c.native = e.natives[key.String()]
	if c.native == nil && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Parent() == nil && fn.Synthetic == "package initializer" {
		if !e.initAllowed(fn.Pkg.Pkg.Path()) {
			c.native = func(g *G, fn *ssa.Function, args []Value) Value { return Value{} }
		}
	}
	if p := fn.Pkg; p != nil {
		c.inRepo = e.isRepo(p.Pkg.Path())
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		c.inRepo = e.isRepo(o.Pkg().Path())
	}
	a, _ := e.funcs.LoadOrStore(fn, c)
	return a.(*cfunc)
}

func (e *Engine) isRepo(path string) bool {
	return e.module != "" && (path == e.module || strings.HasPrefix(path, e.module+"/"))
}

var initOK = map[string]bool{
	"io": true, "context": true, "golang.org/x/sync/errgroup": true, "strconv": true,
	"github.com/edwingeng/deque/v2": true, "bytes": true, "strings": true, "bufio": true, "slices": true, "sort": true,
	"unicode/utf8": true, "github.com/muesli/cancelreader": true, "io/fs": false, "cmp": true, "maps": true, "iter": true, "internal/strconv": true, "math": true, "math/bits": true,
	"github.com/muesli/termenv":          true,
	"github.com/charmbracelet/x/term":    true,
	"github.com/lucasb-eyer/go-colorful": true,
}

func (e *Engine) initAllowed(path string) bool { return e.isRepo(path) || initOK[path] }

// globalOK reports whether the global has been (or need not be) initialised.
func (e *Engine) globalOK(g *ssa.Global) bool {
	return g.Pkg == nil || e.initAllowed(g.Pkg.Pkg.Path()) || g.Name() == "init$guard" || !e.setInInit(g)
}

// setInInit reports whether g appears in the initialiser of its package.
func (e *Engine) setInInit(g *ssa.Global) bool {
	e.globMu.Lock()
	defer e.globMu.Unlock()
	set, ok := e.initSets[g.Pkg]
	if !ok {
		set = map[*ssa.Global]bool{}
		if e.initSets == nil {
			e.initSets = map[*ssa.Package]map[*ssa.Global]bool{}
		}
		e.initSets[g.Pkg] = set
		e.buildMu.Lock()
		g.Pkg.Build()
		e.buildMu.Unlock()
		for nm, mem := range g.Pkg.Members {
			fn, ok := mem.(*ssa.Function)
			if !ok || nm != "init" && !strings.HasPrefix(nm, "init#") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						if x, ok := (*o).(*ssa.Global); ok {
							set[x] = true
						}
					}
				}
			}
		}
	}
	return set[g]
}

func (e *Engine) globalIndex(g *ssa.Global) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	if i, ok := e.gindex[g]; ok {
		return i
	}
	i := len(e.gtypes)
	e.gindex[g] = i
	e.gtypes = append(e.gtypes, g.Type().(*types.Pointer).Elem())
	return i
}

func (e *Engine) globalType(i int) types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.gtypes[i]
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) method(t types.Type, m *types.Func) *cfunc {
	k := mkey{t, m}
	if c, ok := e.methods.Load(k); ok {
		return c.(*cfunc)
	}
	e.buildMu.Lock()
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.buildMu.Unlock()
	if fn == nil {
		return nil
	}
	c := e.cfunc(fn)
	e.methods.Store(k, c)
	return c
}

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	type ik struct {
		t types.Type
		i *types.Interface
	}
	k := ik{t, i}
	if b, ok := e.impl.Load(k); ok {
		return b.(bool)
	}
	e.implMu.Lock()
	b := types.Implements(t, i)
	e.implMu.Unlock()
	e.impl.Store(k, b)
	return b
}

func (e *Engine) errorStringType() types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.errT == nil {
		p := e.pkgs["errors"]
		e.errT = types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type())
	}
	return e.errT
}

func (e *Engine) lookupType(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (e *Engine) newMachine(solver bool) (*Machine, error) {
	m := &Machine{e: e, ctx: NewCtx(), late: map[string]Value{}, extra: map[string]any{}}
	if solver {
		for i := range m.sols {
			t := e.opts.TimeoutMs
			if i == 0 {
				t /= 4
			}
			s, err := NewSolver(m.ctx, e.opts.Solver, t, i == 0)
			if err != nil {
				return nil, err
			}
			m.sols[i] = s
		}
	}
	return m, nil
}

// initPackages runs the package initialisers of pkg and its imports.
func (m *Machine) initPackages(pkg *ssa.Package) (err error) {
	m.path = &Path{m: m, stepLimit: 1 << 40, known: map[*Term]bool{}, seenVar: map[*Term]bool{}, names: map[string]int{}, covers: map[string]bool{}}
	main := &G{m: m, wake: make(chan bool)}
	m.gs = []*G{main}
	m.cur = main
	m.doneCh = make(chan *G, 4096)
	defer func() {
		if x := recover(); x != nil {
			if m.e.opts.Debug {
				panic(x)
			}
			switch y := x.(type) {
			case unsupported:
				err = fmt.Errorf("package initialisation: unsupported %s [%s]", y.msg, strings.Join(m.stack(6), " < "))
			case *targetPanic:
				err = fmt.Errorf("package initialisation panics: %s", y.what)
			default:
				err = fmt.Errorf("package initialisation: %v [%s]", x, strings.Join(m.stack(6), " < "))
			}
		}
	}()
	fn := pkg.Func("init")
	m.e.buildMu.Lock()
	pkg.Build()
	m.e.buildMu.Unlock()
	main.call(m.e.cfunc(fn), nil, nil)
	m.freeze()
	m.initChans = m.path.nchan
	return nil
}

// freeze marks all maps reachable from globals as shared between paths.
func (m *Machine) freeze() {
	seen := map[any]bool{}
	var walk func(v Value)
	walk = func(v Value) {
		switch x := v.p.(type) {
		case *Agg:
			for i := range x.v {
				walk(x.v[i])
			}
		case *Slice:
			if len(x.a) > 0 {
				if seen[&x.a[0]] {
					return
				}
				seen[&x.a[0]] = true
			}
			for i := range x.a {
				walk(x.a[i])
			}
		case *Value:
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			walk(*x)
		case *Iface:
			walk(x.v)
		case *Map:
			if seen[x] {
				return
			}
			seen[x] = true
			x.frozen = true
			for _, e := range x.es {
				walk(e.k)
				walk(e.v)
			}
		case *Closure:
			for _, v := range x.env {
				walk(v)
			}
		}
	}
	for _, g := range m.globals {
		if g != nil {
			walk(*g)
		}
	}
}

// Explore runs the named function over all paths.
func (e *Engine) Explore(pkgPath, fnName string, budget time.Duration, samples int, maxVio int, filter func(*Violation) string) (*Run, error) {
	pkg := e.pkgs[pkgPath]
	if pkg == nil {
		return nil, fmt.Errorf("no package %s", pkgPath)
	}
	fn := pkg.Func(fnName)
	if fn == nil {
		return nil, fmt.Errorf("no function %s in %s", fnName, pkgPath)
	}
	r := &Run{rng: uint64(e.opts.Seed), e: e, harness: fnName, vioKeys: map[string]int{}, issues: map[string]int{}, covers: map[string]int{}, wantSamples: samples, maxVio: maxVio, filter: filter, knownHits: map[string]int{}}
	if maxVio == 0 {
		r.maxVio = 6
	}
	r.cond = sync.NewCond(&r.mu)
	r.deadline = time.Now().Add(budget)
	e.run = r
	r.push(&item{})
	nw := e.opts.Workers
	if nw <= 0 {
		nw = runtime.NumCPU()
	}
	timer := time.AfterFunc(budget, func() {
		r.mu.Lock()
		if len(r.stack) > 0 || r.active > 0 {
			r.timedOut = true
		}
		r.mu.Unlock()
		r.halt()
	})
	defer timer.Stop()
	var wg sync.WaitGroup
	var emu sync.Mutex
	var firstErr error
	ms := e.machines
	for len(ms) < nw {
		m, err := e.newMachine(true)
		if err != nil {
			return nil, err
		}
		ms = append(ms, m)
	}
	e.machines = ms
	for i := 0; i < nw; i++ {
		m := ms[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cf *cfunc
			for {
				it := r.pop()
				if it == nil {
					return
				}
				if m.initFor != pkg {
					m.globals = nil
					if err := m.initPackages(pkg); err != nil {
						emu.Lock()
						if firstErr == nil {
							firstErr = err
						}
						emu.Unlock()
						r.halt()
						r.finish()
						return
					}
					m.initFor = pkg
				}
				if cf == nil {
					cf = e.cfunc(fn)
				}
				m.runPath(it, cf, nil)
				r.finish()
			}
		}()
	}
	wg.Wait()
	if firstErr != nil {
		return r, firstErr
	}
	return r, nil
}

func (e *Engine) Close() {
	for _, m := range e.machines {
		for _, s := range m.sols {
			if s != nil {
				s.Close()
			}
		}
	}
}

var _ = ast.NewIdent
