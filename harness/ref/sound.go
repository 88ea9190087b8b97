package ref

// Analysis of grammars: left recursion, nullable repetition and undefined
// names, with names resolved lexically.

type defKey struct {
	s *env
	i int
}

type analysis struct {
	scopes map[*P]map[*env]*env
	null   map[defKey]bool
	grew   bool
	stack  map[defKey]bool
	defs   []defKey
	seen   map[defKey]bool
	undef  bool
	dead   bool // below an alternative that is never tried
	maybe  bool // an undefined name there
	all    bool // unreachable definitions, too
	bad    bool
}

func (a *analysis) enter(g *P, up *env) *env {
	if a.scopes[g] == nil {
		a.scopes[g] = map[*env]*env{}
	}
	if s := a.scopes[g][up]; s != nil {
		return s
	}
	s := &env{g, up}
	a.scopes[g][up] = s
	return s
}

func lookup(name string, e *env) (defKey, bool) {
	for s := e; s != nil; s = s.up {
		for i, n := range s.g.Names {
			if n == name {
				return defKey{s, i}, true
			}
		}
	}
	return defKey{}, false
}

func (a *analysis) start(p *P, e *env) (defKey, bool) {
	s := a.enter(p, e)
	for i, n := range p.Names {
		if n == p.Name {
			return defKey{s, i}, true
		}
	}
	return defKey{}, false
}

// collect finds the definitions reachable from p.
func (a *analysis) collect(p *P, e *env) {
	add := func(k defKey, ok bool) {
		if !ok && a.dead {
			a.maybe = true
			return
		}
		if !ok {
			a.undef = true
			return
		}
		if !a.seen[k] {
			a.seen[k] = true
			a.defs = append(a.defs, k)
			a.collect(k.s.g.L[k.i], k.s)
		}
	}
	switch p.Op {
	case NonTerm:
		add(lookup(p.Name, e))
		return
	case Gram:
		add(a.start(p, e))
		if a.all {
			for i := range p.Names {
				add(defKey{a.enter(p, e), i}, true)
			}
		}
		return
	}
	if p.A != nil {
		a.collect(p.A, e)
	}
	was := a.dead
	for _, x := range p.L {
		a.collect(x, e)
		if p.Op == Alt && sure(x) {
			a.dead = true
		}
	}
	a.dead = was
}

// sure: p succeeds everywhere.
func sure(p *P) bool {
	switch p.Op {
	case Empty, Star, Opt:
		return true
	case Lit:
		return len(p.S) == 0
	case Alt:
		for _, x := range p.L {
			if sure(x) {
				return true
			}
		}
		return len(p.L) == 0
	case Seq:
		for _, x := range p.L {
			if !sure(x) {
				return false
			}
		}
		return true
	case Cap, Memo:
		return sure(p.A)
	}
	return false
}

// Unclear: the only undefined names of p are in definitions that are not
// reachable, or in alternatives that are never tried, because one before them
// always succeeds.
func Unclear(p *P) bool {
	a := &analysis{scopes: map[*P]map[*env]*env{}, seen: map[defKey]bool{}}
	a.collect(p, nil)
	b := &analysis{scopes: map[*P]map[*env]*env{}, seen: map[defKey]bool{}, all: true}
	b.collect(p, nil)
	return !a.undef && (b.undef || b.maybe)
}

func (a *analysis) nullable(p *P, e *env) bool {
	switch p.Op {
	case NonTerm:
		k, _ := lookup(p.Name, e)
		return a.null[k]
	case Gram:
		k, _ := a.start(p, e)
		return a.null[k]
	case Alt:
		for _, x := range p.L {
			if a.nullable(x, e) {
				return true
			}
		}
		return len(p.L) == 0
	case Seq:
		for _, x := range p.L {
			if !a.nullable(x, e) {
				return false
			}
		}
		return true
	case Plus, Cap, Memo, Search, Check:
		return a.nullable(p.A, e)
	case Rep:
		return p.N <= 0 || a.nullable(p.A, e)
	case Err:
		return !p.NoRec && a.nullable(p.A, e)
	}
	return p.Nullable()
}

func (a *analysis) left(p *P, e *env) {
	call := func(k defKey) {
		if a.stack[k] {
			a.bad = true
			return
		}
		a.stack[k] = true
		a.left(k.s.g.L[k.i], k.s)
		delete(a.stack, k)
	}
	switch p.Op {
	case NonTerm:
		k, _ := lookup(p.Name, e)
		call(k)
		return
	case Gram:
		k, _ := a.start(p, e)
		call(k)
		return
	case Seq:
		for _, x := range p.L {
			a.left(x, e)
			if !a.nullable(x, e) {
				return
			}
		}
		return
	}
	if p.A != nil {
		a.left(p.A, e)
	}
	for _, x := range p.L {
		a.left(x, e)
	}
}

// loops looks for repetitions of nullable patterns outside of definitions.
func (a *analysis) loops(p *P, e *env) {
	if p.Op == Gram {
		return
	}
	if (p.Op == Star || p.Op == Plus) && a.nullable(p.A, e) {
		a.bad = true
	}
	if p.A != nil {
		a.loops(p.A, e)
	}
	for _, x := range p.L {
		a.loops(x, e)
	}
}

// Sound reports whether every name that can be reached is defined, and whether
// p is free of left recursion and of repetitions of nullable patterns.
func Sound(p *P) (defined, wellFormed bool) {
	a := &analysis{scopes: map[*P]map[*env]*env{}, null: map[defKey]bool{}, stack: map[defKey]bool{}, seen: map[defKey]bool{}}
	a.collect(p, nil)
	if a.undef || a.maybe {
		return false, false
	}
	for a.grew = true; a.grew; {
		a.grew = false
		for _, k := range a.defs {
			if !a.null[k] && a.nullable(k.s.g.L[k.i], k.s) {
				a.null[k], a.grew = true, true
			}
		}
	}
	a.left(p, nil)
	a.loops(p, nil)
	for _, k := range a.defs {
		a.stack[k] = true
		a.left(k.s.g.L[k.i], k.s)
		delete(a.stack, k)
		a.loops(k.s.g.L[k.i], k.s)
	}
	return true, !a.bad
}
