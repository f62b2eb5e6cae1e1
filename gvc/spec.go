package main

// Contract language: lexer, Pratt parser, contract-file reader.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Ex struct {
	Op   string // id int str call sel idx un bin ite forall exists let old
	Name string
	Args []*Ex
	Vars []VarDecl
	Trig [][]*Ex
}

type VarDecl struct{ Name, Sort string }

func (e *Ex) String() string {
	switch e.Op {
	case "id", "int":
		return e.Name
	case "str":
		return strconv.Quote(e.Name)
	case "call":
		var a []string
		for _, x := range e.Args {
			a = append(a, x.String())
		}
		return e.Name + "(" + strings.Join(a, ", ") + ")"
	case "sel":
		return e.Args[0].String() + "." + e.Name
	case "idx":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "un":
		return e.Name + e.Args[0].String()
	case "bin":
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	case "ite":
		return "(" + e.Args[0].String() + " ? " + e.Args[1].String() + " : " + e.Args[2].String() + ")"
	case "forall", "exists":
		s := e.Op
		for i, v := range e.Vars {
			if i > 0 {
				s += ","
			}
			s += " " + v.Name + " " + v.Sort
		}
		return "(" + s + " :: " + e.Args[0].String() + ")"
	case "let":
		return "(let " + e.Name + " = " + e.Args[0].String() + " in " + e.Args[1].String() + ")"
	}
	return "?" + e.Op
}

type Clause struct {
	Kind   string // requires ensures invariant decreases modifies allocates
	Tags   []string
	Label  string
	E      *Ex
	Es     []*Ex
	Names  []string
	Loop   int // -1 any
	Assume bool
	Src    string
}

type Contract struct {
	Kind    string // func extern iface lemma
	Key     string
	Params  []string
	PSorts  []string // for lemmas
	Ghosts  []VarDecl
	Clauses []*Clause
	Use     []string // theories / lemmas
	Ext     []*Contract // parts that count for some properties only
	Tags    []string    // of such a part
	Inline  bool
	Pure    bool
	NoPanic bool
	Axiom   bool // a lemma that is assumed
	Trig    []*Ex
	Hints   []*Hint
	CallHints []*Clause
	File    string
	Line    int
	Export  bool
	Opaque  bool
	Internal bool
	NoReturn bool
}

type Hint struct { // in lemmas: use Name(args) [when cond], or assert e
	Kind string // use assert
	Name string
	Args []*Ex
	When *Ex
	E    *Ex
	Vars []VarDecl
	Trigs [][]*Ex
}

type Macro struct {
	Name   string
	Params []VarDecl
	Body   *Ex
}

type SpecFunc struct {
	Name   string
	Params []VarDecl
	Ret    string
	Body   *Ex
	Theory string
	Opaque bool // not unfolded outside lemma proofs
	Named  bool // declared symbol with a defining axiom (usable inside larger terms)
}

type Theory struct {
	Name string
	Deps []string
	Raw  string
	Funs []*SpecFunc
	File string
}

type Property struct {
	ID       string
	Funcs    []string
	Safety   bool
	NoSafety map[string]bool
	Trust    map[string]bool
	Term     bool
	Lemmas   []string
	Bounded  []string // functions covered by a bounded stand-in only
	Driver   string
	Always   bool
	Note     string
	Level    string
}

type SpecDB struct {
	Contracts map[string]*Contract
	Impls map[string]*Contract
	Macros    map[string]*Macro
	Theories  map[string]*Theory
	Lemmas    map[string]*Contract
	Props     map[string]*Property
	PropOrder []string
	TheoryOrd []string
}

// ---- lexer ----

type tok struct {
	k, s string
	line int
}

func lex(src, file string) []tok {
	var out []tok
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '`':
			j := strings.IndexByte(src[i+1:], '`')
			if j < 0 {
				fatal("%s:%d: unterminated raw block", file, line)
			}
			s := src[i+1 : i+1+j]
			out = append(out, tok{"raw", s, line})
			line += strings.Count(s, "\n")
			i += j + 2
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				fatal("%s:%d: bad string", file, line)
			}
			out = append(out, tok{"str", s, line})
			i = j + 1
		case c == '\'':
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				fatal("%s:%d: bad char %s", file, line, src[i:j+1])
			}
			out = append(out, tok{"int", strconv.Itoa(int(r)), line})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f') {
				j++
			}
			v, err := strconv.ParseInt(src[i:j], 0, 64)
			if err != nil {
				fatal("%s:%d: bad int %s", file, line, src[i:j])
			}
			out = append(out, tok{"int", strconv.FormatInt(v, 10), line})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i + 1
			for j < len(src) && (src[j] == '_' || src[j] == '@' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
		default:
			for _, op := range []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "++"} {
				if strings.HasPrefix(src[i:], op) {
					out = append(out, tok{"op", op, line})
					i += len(op)
					goto next
				}
			}
			out = append(out, tok{"op", string(c), line})
			i++
		next:
		}
	}
	out = append(out, tok{"eof", "", line})
	return out
}

type parser struct {
	ts   []tok
	p    int
	file string
	db   *SpecDB
}

func (p *parser) peek() tok { return p.ts[p.p] }
func (p *parser) next() tok  { t := p.ts[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	t := p.ts[p.p]
	return t.s == s && (t.k == "op" || t.k == "id")
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, got %q", s, p.peek().s)
	}
}
func (p *parser) fail(f string, a ...interface{}) {
	fatal("%s:%d: %s", p.file, p.peek().line, fmt.Sprintf(f, a...))
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("identifier expected, got %q", t.s)
	}
	return t.s
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "+": 7, "-": 7, "++": 7, "*": 8, "div": 8, "mod": 8}

func (p *parser) expr() *Ex { return p.ternary() }

func (p *parser) ternary() *Ex {
	c := p.binary(1)
	if p.is("?") {
		p.next()
		a := p.ternary()
		p.expect(":")
		b := p.ternary()
		return &Ex{Op: "ite", Args: []*Ex{c, a, b}}
	}
	return c
}

func (p *parser) binary(min int) *Ex {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if !ok || t.k == "str" || pr < min {
			return l
		}
		p.next()
		var r *Ex
		if t.s == "==>" {
			r = p.binary(pr) // right assoc
		} else {
			r = p.binary(pr + 1)
		}
		l = &Ex{Op: "bin", Name: t.s, Args: []*Ex{l, r}}
	}
}

func (p *parser) unary() *Ex {
	if p.accept("!") {
		return &Ex{Op: "un", Name: "!", Args: []*Ex{p.unary()}}
	}
	if p.accept("-") {
		return &Ex{Op: "un", Name: "-", Args: []*Ex{p.unary()}}
	}
	if p.is("forall") || p.is("exists") {
		op := p.next().s
		e := &Ex{Op: op}
		for {
			n := p.ident()
			s := ""
			if p.peek().k == "raw" {
				s = p.next().s
			} else {
				s = p.ident()
			}
			e.Vars = append(e.Vars, VarDecl{n, s})
			if !p.accept(",") {
				break
			}
		}
		p.expect("::")
		for p.is("{") {
			p.next()
			var tr []*Ex
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Trig = append(e.Trig, tr)
		}
		e.Args = []*Ex{p.expr()}
		return e
	}
	if p.is("let") {
		p.next()
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("in")
		b := p.expr()
		return &Ex{Op: "let", Name: n, Args: []*Ex{v, b}}
	}
	return p.postfix()
}

func (p *parser) postfix() *Ex {
	var e *Ex
	t := p.next()
	switch {
	case t.k == "int":
		e = &Ex{Op: "int", Name: t.s}
	case t.k == "str":
		e = &Ex{Op: "str", Name: t.s}
	case t.s == "(" && t.k == "op":
		e = p.expr()
		p.expect(")")
	case t.k == "id":
		if p.is("(") {
			p.next()
			e = &Ex{Op: "call", Name: t.s}
			for !p.is(")") {
				e.Args = append(e.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			if t.s == "old" {
				e.Op = "old"
			}
		} else {
			e = &Ex{Op: "id", Name: t.s}
		}
	default:
		p.p--
		p.fail("unexpected %q", t.s)
	}
	for {
		if p.is(".") {
			p.next()
			e = &Ex{Op: "sel", Name: p.ident(), Args: []*Ex{e}}
		} else if p.is("[") {
			p.next()
			i := p.expr()
			p.expect("]")
			e = &Ex{Op: "idx", Args: []*Ex{e, i}}
		} else {
			return e
		}
	}
}

func (p *parser) params() []VarDecl {
	p.expect("(")
	var out []VarDecl
	for !p.is(")") {
		n := p.ident()
		s := ""
		if k := p.peek().k; k == "id" || k == "raw" {
			s = p.next().s
		}
		out = append(out, VarDecl{n, s})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return out
}

// function key: raw string token or sequence up to '(' params.
func (p *parser) key() string {
	t := p.next()
	if t.k != "str" {
		p.p--
		p.fail("quoted function key expected, got %q", t.s)
	}
	return t.s
}

func (p *parser) tags() []string {
	var out []string
	if p.accept("[") {
		for !p.is("]") {
			out = append(out, p.ident())
			p.accept(",")
		}
		p.expect("]")
	}
	return out
}

func (p *parser) exprList() []*Ex {
	es := []*Ex{p.expr()}
	for p.accept(",") {
		es = append(es, p.expr())
	}
	return es
}

func (p *parser) clauses(c *Contract) {
	p.expect("{")
	for !p.accept("}") {
		kw := p.ident()
		cl := &Clause{Kind: kw, Loop: -1}
		switch kw {
		case "requires", "ensures", "invariant", "assume":
			cl.Tags = p.tags()
			if kw == "invariant" && p.accept("loop") {
				n := p.next()
				cl.Loop, _ = strconv.Atoi(n.s)
			}
			if p.peek().k == "id" && p.ts[p.p+1].s == ":" && p.ts[p.p+1].k == "op" {
				cl.Label = p.ident()
				p.next()
			}
			cl.E = p.expr()
			cl.Src = cl.E.String()
			c.Clauses = append(c.Clauses, cl)
		case "decreases":
			cl.Tags = p.tags()
			if p.accept("loop") {
				n := p.next()
				cl.Loop, _ = strconv.Atoi(n.s)
				cl.Kind = "loopdecreases"
			}
			cl.Es = p.exprList()
			c.Clauses = append(c.Clauses, cl)
		case "modifies":
			if p.accept("nothing") {
				cl.Names = append(cl.Names, "nothing")
			} else {
				cl.Es = p.exprList()
			}
			c.Clauses = append(c.Clauses, cl)
		case "allocates":
			for {
				t := p.next()
				cl.Names = append(cl.Names, t.s)
				if !p.accept(",") {
					break
				}
			}
			c.Clauses = append(c.Clauses, cl)
		case "ghost":
			n := p.ident()
			c.Ghosts = append(c.Ghosts, VarDecl{n, p.ident()})
		case "use", "import":
			if c.Kind == "lemma" && kw == "use" && p.ts[p.p+1].s == "(" {
				h := &Hint{Kind: "use", Name: p.ident()}
				p.expect("(")
				for !p.is(")") {
					h.Args = append(h.Args, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
				if p.accept("when") {
					h.When = p.expr()
				}
				c.Hints = append(c.Hints, h)
				break
			}
			for {
				c.Use = append(c.Use, p.ident())
				if !p.accept(",") {
					break
				}
			}
		case "useall":
			h := &Hint{Kind: "useall"}
			for {
				n := p.ident()
				h.Vars = append(h.Vars, VarDecl{n, p.ident()})
				if !p.accept(",") {
					break
				}
			}
			for p.accept("{") {
				h.Trigs = append(h.Trigs, p.exprList())
				p.expect("}")
			}
			h.Name = p.ident()
			p.expect("(")
			for !p.is(")") {
				h.Args = append(h.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			if p.accept("when") {
				h.When = p.expr()
			}
			c.Hints = append(c.Hints, h)
		case "except":
			for {
				cl.Names = append(cl.Names, p.key())
				if !p.accept(",") {
					break
				}
			}
			c.Clauses = append(c.Clauses, cl)
		case "hint", "callhint": // hint L(args) [when c]: instance of a lemma at every return
			if kw == "callhint" {
				cl.Label = p.key()
			}
			cl.Names = []string{p.ident()}
			p.expect("(")
			for !p.is(")") {
				cl.Es = append(cl.Es, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			if p.accept("when") {
				cl.E = p.expr()
			}
			if kw == "callhint" {
				c.CallHints = append(c.CallHints, cl)
				break
			}
			c.Clauses = append(c.Clauses, cl)
		case "assert":
			if c.Kind != "lemma" {
				cl.E = p.expr()
				c.Clauses = append(c.Clauses, cl)
				break
			}
			h := &Hint{Kind: "assert", E: p.expr()}
			c.Hints = append(c.Hints, h)
		case "trigger":
			c.Trig = p.exprList()
			c.Export = true
		case "inline":
			c.Inline = true
		case "opaque":
			c.Opaque = true
		case "internal":
			c.Internal = true
		case "noreturn":
			c.NoReturn = true
		default:
			p.p--
			p.fail("unknown clause %q", kw)
		}
		p.accept(";")
	}
}

func (db *SpecDB) parseFile(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	p := &parser{ts: lex(string(b), file), file: filepath.Base(file), db: db}
	var defUse []string
	curTheory := ""
	for p.peek().k != "eof" {
		line := p.peek().line
		switch kw := p.ident(); kw {
		case "use":
			defUse = nil
			for {
				defUse = append(defUse, p.ident())
				if !p.accept(",") {
					break
				}
			}
		case "theory":
			n := p.ident()
			th := &Theory{Name: n, File: p.file}
			if p.accept(":") {
				for {
					th.Deps = append(th.Deps, p.ident())
					if !p.accept(",") {
						break
					}
				}
			}
			t := p.next()
			if t.k != "raw" {
				p.fail("raw block expected")
			}
			th.Raw = t.s
			if db.Theories[n] != nil {
				p.fail("duplicate theory %s", n)
			}
			db.Theories[n] = th
			db.TheoryOrd = append(db.TheoryOrd, n)
			curTheory = n
		case "macro":
			n := p.ident()
			ps := p.params()
			p.expect("=")
			if db.Macros[n] != nil {
				p.fail("duplicate macro %s", n)
			}
			for _, t := range db.Theories {
				for _, f := range t.Funs {
					if f.Name == n {
						p.fail("macro %s is a spec too", n)
					}
				}
			}
			db.Macros[n] = &Macro{n, ps, p.expr()}
		case "spec":
			opq := p.is("opaque")
			nmd := p.is("named")
			if opq || nmd {
				p.next()
			}
			n := p.ident()
			ps := p.params()
			ret := p.next().s
			p.expect("=")
			for _, t := range db.Theories {
				for _, f := range t.Funs {
					if f.Name == n {
						p.fail("duplicate spec %s", n)
					}
				}
			}
			if db.Macros[n] != nil {
				p.fail("spec %s is a macro too", n)
			}
			sf := &SpecFunc{n, ps, ret, p.expr(), curTheory, opq, nmd}
			db.Theories[curTheory].Funs = append(db.Theories[curTheory].Funs, sf)
		case "func", "extern", "iface", "impl":
			c := &Contract{Kind: kw, Key: p.key(), File: p.file, Line: line, Use: append([]string(nil), defUse...)}
			for _, v := range p.params() {
				c.Params = append(c.Params, v.Name)
			}
			from := p.p
			p.clauses(c)
			if kw == "extern" {
				// what is fresh after a call must come from room the call makes
				fresh, alloc := false, false
				for i := from; i < p.p; i++ {
					fresh = fresh || p.ts[i].s == "fresh"
					alloc = alloc || p.ts[i].s == "allocates"
				}
				if fresh && !alloc {
					p.fail("extern %s: fresh without allocates", c.Key)
				}
			}
			if kw == "impl" {
				if db.Impls[c.Key] != nil {
					p.fail("duplicate impl %s", c.Key)
				}
				db.Impls[c.Key] = c
				continue
			}
			if db.Contracts[c.Key] != nil {
				p.fail("duplicate contract %s", c.Key)
			}
			db.Contracts[c.Key] = c
		case "extend": // a part of a contract that counts for the listed properties only
			tags := p.tags()
			c := &Contract{Kind: kw, Tags: tags, Key: p.key(), File: p.file, Line: line, Use: append([]string(nil), defUse...)}
			for _, v := range p.params() {
				c.Params = append(c.Params, v.Name)
			}
			p.clauses(c)
			b := db.Contracts[c.Key]
			if b == nil {
				b = db.Impls[c.Key]
			}
			if b == nil || len(tags) == 0 {
				p.fail("nothing to extend: %s", c.Key)
			}
			if strings.Join(b.Params, ",") != strings.Join(c.Params, ",") {
				p.fail("parameters of %s differ", c.Key)
			}
			b.Ext = append(b.Ext, c)
		case "lemma", "axiom":
			c := &Contract{Kind: "lemma", Axiom: kw == "axiom", Key: p.ident(), File: p.file, Line: line, Use: append([]string(nil), defUse...)}
			for _, v := range p.params() {
				c.Params = append(c.Params, v.Name)
				c.PSorts = append(c.PSorts, v.Sort)
			}
			p.clauses(c)
			db.Lemmas[c.Key] = c
		case "property":
			pr := &Property{ID: p.ident()}
			p.expect("{")
			for !p.accept("}") {
				switch k := p.ident(); k {
				case "funcs":
					for {
						pr.Funcs = append(pr.Funcs, p.key())
						if !p.accept(",") {
							break
						}
					}
				case "bounded":
					for {
						pr.Bounded = append(pr.Bounded, p.key())
						if !p.accept(",") {
							break
						}
					}
				case "lemmas":
					for {
						pr.Lemmas = append(pr.Lemmas, p.ident())
						if !p.accept(",") {
							break
						}
					}
				case "safety":
					pr.Safety = true
				case "nosafety": // functions whose freedom from panics the property does not claim
					if pr.NoSafety == nil {
						pr.NoSafety = map[string]bool{}
					}
					for {
						pr.NoSafety[p.key()] = true
						if !p.accept(",") {
							break
						}
					}
				case "trust": // preconditions taken for granted, "CALLEE: label"
					if pr.Trust == nil {
						pr.Trust = map[string]bool{}
					}
					for {
						pr.Trust[p.key()] = true
						if !p.accept(",") {
							break
						}
					}
				case "termination":
					pr.Term = true
				case "always":
					pr.Always = true
				case "driver":
					pr.Driver = p.key()
				case "note":
					pr.Note = p.key()
				case "level":
					pr.Level = p.key()
				default:
					p.fail("unknown property clause %s", k)
				}
				p.accept(";")
			}
			db.Props[pr.ID] = pr
			db.PropOrder = append(db.PropOrder, pr.ID)
		default:
			p.fail("unknown item %q", kw)
		}
	}
}

var rawDefRE = regexp.MustCompile(`\((?:declare-fun|define-fun) ([^ ]+) `)

func loadSpecs(dir string) *SpecDB {
	db := &SpecDB{Contracts: map[string]*Contract{}, Impls: map[string]*Contract{}, Macros: map[string]*Macro{}, Theories: map[string]*Theory{}, Lemmas: map[string]*Contract{}, Props: map[string]*Property{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		db.parseFile(f)
	}
	db.checkLemmaOrder()
	seen := map[string]string{}
	for _, n := range db.TheoryOrd {
		for _, m := range rawDefRE.FindAllStringSubmatch(db.Theories[n].Raw, -1) {
			if seen[m[1]] != "" {
				fatal("%s is declared in theories %s and %s", m[1], seen[m[1]], n)
			}
			seen[m[1]] = n
		}
		for _, f := range db.Theories[n].Funs {
			if seen[f.Name] != "" {
				fatal("%s is declared in theories %s and %s", f.Name, seen[f.Name], n)
			}
		}
	}
	return db
}

// the contract as it counts for a property
func (db *SpecDB) forProp(c *Contract, p *Property) *Contract {
	if c == nil || len(c.Ext) == 0 || p == nil {
		return c
	}
	var c2 *Contract
	for _, e := range c.Ext {
		if !contains(e.Tags, p.ID) {
			continue
		}
		if c2 == nil {
			d := *c
			c2 = &d
			c2.Clauses = append([]*Clause(nil), c.Clauses...)
			c2.Use = append([]string(nil), c.Use...)
			c2.CallHints = append([]*Clause(nil), c.CallHints...)
		}
		// hints of a part come before the postconditions they are for
		var h, o []*Clause
		for _, cl := range e.Clauses {
			if cl.Kind == "hint" || cl.Kind == "assert" {
				h = append(h, cl)
			} else {
				o = append(o, cl)
			}
		}
		c2.Clauses = append(append(append([]*Clause(nil), h...), c2.Clauses...), o...)
		c2.Use = append(c2.Use, e.Use...)
		c2.CallHints = append(c2.CallHints, e.CallHints...)
	}
	if c2 == nil {
		return c
	}
	return c2
}

// free identifiers of an expression (not bound, not call names)
func freeIDs(e *Ex, bound map[string]bool, out map[string]bool) {
	switch e.Op {
	case "id":
		if !bound[e.Name] {
			out[e.Name] = true
		}
		return
	case "forall", "exists":
		b := map[string]bool{}
		for k := range bound {
			b[k] = true
		}
		for _, v := range e.Vars {
			b[v.Name] = true
		}
		for _, t := range e.Trig {
			for _, x := range t {
				freeIDs(x, b, out)
			}
		}
		freeIDs(e.Args[0], b, out)
		return
	case "let":
		freeIDs(e.Args[0], bound, out)
		b := map[string]bool{e.Name: true}
		for k := range bound {
			b[k] = true
		}
		freeIDs(e.Args[1], b, out)
		return
	}
	for _, a := range e.Args {
		freeIDs(a, bound, out)
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gvc: "+f+"\n", a...)
	os.Exit(2)
}

// a lemma may use itself (with a measure) but never another lemma that
// depends on it
func (db *SpecDB) checkLemmaOrder() {
	state := map[string]int{}
	var visit func(n string, path []string)
	visit = func(n string, path []string) {
		l := db.Lemmas[n]
		if l == nil {
			return
		}
		if state[n] == 1 {
			fatal("circular lemma use: %s", strings.Join(append(path, n), " -> "))
		}
		if state[n] == 2 {
			return
		}
		state[n] = 1
		for _, u := range l.Use {
			if u != n {
				visit(u, append(path, n))
			}
		}
		for _, h := range l.Hints {
			if h.Name != n && h.Name != "" {
				visit(h.Name, append(path, n))
			}
		}
		state[n] = 2
	}
	for n := range db.Lemmas {
		visit(n, nil)
	}
}
