package ref

// The documented notation (the grammar in re/grammar.go's comment), read by
// plain recursive descent.

// Text is the reading of one text.
type Text struct {
	P     *P       // nil if the text is outside the notation
	Rules []string // definitions in order, if it is a grammar
	Loose bool     // uses something whose meaning is not documented: {e}, or a rule defined twice
}

type notation struct {
	s     []byte
	loose bool
}

// ReadNotation reads a text.
func ReadNotation(s []byte) Text {
	n := &notation{s: s}
	i := n.spacing(0)
	if p, rules, j := n.grammar(i); j >= 0 && j == len(s) {
		return Text{p, rules, n.loose}
	} else if j >= 0 {
		return Text{} // an ordered choice does not come back
	}
	n.loose = false
	p, j := n.expression(i)
	if j != len(s) {
		return Text{}
	}
	return Text{p, nil, n.loose}
}

func (n *notation) is(i int, c byte) bool { return i < len(n.s) && n.s[i] == c }

func (n *notation) eol(i int) int {
	if n.is(i, '\r') {
		if n.is(i+1, '\n') {
			return i + 2
		}
		return i + 1
	}
	if n.is(i, '\n') {
		return i + 1
	}
	return -1
}

func (n *notation) spacing(i int) int {
	for i < len(n.s) {
		if n.is(i, ' ') || n.is(i, '\t') {
			i++
			continue
		}
		if j := n.eol(i); j >= 0 {
			i = j
			continue
		}
		if !n.is(i, '#') {
			break
		}
		j := i + 1
		for j < len(n.s) && n.eol(j) < 0 {
			j++
		}
		if j >= len(n.s) {
			break // a comment ends with a line end
		}
		i = n.eol(j)
	}
	return i
}

// token is a fixed string and white space.
func (n *notation) token(t string, i int) int {
	for k := 0; k < len(t); k++ {
		if !n.is(i+k, t[k]) {
			return -1
		}
	}
	return n.spacing(i + len(t))
}

func (n *notation) grammar(i int) (*P, []string, int) {
	var names []string
	var defs []*P
	for {
		id, j := n.identifier(i)
		if j < 0 {
			break
		}
		j = n.token("<-", j)
		if j < 0 {
			break
		}
		p, k := n.expression(j)
		i = k
		for _, o := range names {
			if o == id {
				n.loose = true
			}
		}
		names, defs = append(names, id), append(defs, p)
	}
	if len(names) == 0 {
		return nil, nil, -1
	}
	return Grammar(names[0], names, defs), names, i
}

// expression always succeeds: a sequence may be empty.
func (n *notation) expression(i int) (*P, int) {
	p, i := n.sequence(i)
	l := []*P{p}
	for {
		j := n.token("/", i)
		if j < 0 {
			break
		}
		p, i = n.sequence(j)
		l = append(l, p)
	}
	return Or(l...), i
}

func (n *notation) sequence(i int) (*P, int) {
	var l []*P
	for {
		p, j := n.prefix(i)
		if j < 0 {
			return Cat(l...), i
		}
		l, i = append(l, p), j
	}
}

func (n *notation) prefix(i int) (*P, int) {
	if j := n.token("&", i); j >= 0 {
		p, k := n.suffix(j)
		return Un(And, p), k
	}
	if j := n.token("!", i); j >= 0 {
		p, k := n.suffix(j)
		return Un(Not, p), k
	}
	return n.suffix(i)
}

func (n *notation) suffix(i int) (*P, int) {
	p, i := n.primary(i)
	if i < 0 {
		return nil, -1
	}
	if j := n.token("?", i); j >= 0 {
		return Un(Opt, p), j
	}
	if j := n.token("*", i); j >= 0 {
		return Un(Star, p), j
	}
	if j := n.token("+", i); j >= 0 {
		return Un(Plus, p), j
	}
	return p, i
}

func (n *notation) primary(i int) (*P, int) {
	if id, j := n.identifier(i); j >= 0 && n.token("<-", j) < 0 {
		return NT(id), j
	}
	in := func(open, shut string) (*P, int) {
		j := n.token(open, i)
		if j < 0 {
			return nil, -1
		}
		p, j := n.expression(j)
		j = n.token(shut, j)
		if j < 0 {
			return nil, -1
		}
		return p, j
	}
	if p, j := in("(", ")"); j >= 0 {
		return p, j
	}
	if p, j := in("{{", "}}"); j >= 0 {
		return MemoP(p), j
	}
	was := n.loose
	if p, j := in("{", "}"); j >= 0 {
		n.loose = true
		return p, j
	}
	n.loose = was
	if p, j := n.literal(i, '\''); j >= 0 {
		return p, j
	}
	if p, j := n.literal(i, '"'); j >= 0 {
		return p, j
	}
	if p, j := n.class(i); j >= 0 {
		return p, j
	}
	if j := n.token(".", i); j >= 0 {
		return AnyN(1), j
	}
	return nil, -1
}

func (n *notation) identStart(i int) bool {
	if i >= len(n.s) {
		return false
	}
	c := n.s[i]
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
}

func (n *notation) identifier(i int) (string, int) {
	if !n.identStart(i) {
		return "", -1
	}
	j := i + 1
	for n.identStart(j) || j < len(n.s) && n.s[j] >= '0' && n.s[j] <= '9' {
		j++
	}
	return string(n.s[i:j]), n.spacing(j)
}

func (n *notation) literal(i int, q byte) (*P, int) {
	if !n.is(i, q) {
		return nil, -1
	}
	var b []byte
	i++
	for !n.is(i, q) {
		c, j := n.char(i)
		if j < 0 {
			return nil, -1
		}
		b, i = append(b, c), j
	}
	return LB(b...), n.spacing(i + 1)
}

func (n *notation) class(i int) (*P, int) {
	if !n.is(i, '[') {
		return nil, -1
	}
	i++
	not := false
	if j := n.token("^", i); j >= 0 {
		not, i = true, j
	}
	var rs [][2]byte
	for !n.is(i, ']') {
		c, j := n.char(i)
		if j < 0 {
			return nil, -1
		}
		lo, hi := c, c
		if n.is(j, '-') {
			if d, k := n.char(j + 1); k >= 0 {
				hi, j = d, k
			}
		}
		rs, i = append(rs, [2]byte{lo, hi}), j
	}
	return &P{Op: Class, Ranges: rs, Neg: not}, n.spacing(i + 1)
}

func (n *notation) octal(i int, max byte) bool {
	return i < len(n.s) && n.s[i] >= '0' && n.s[i] <= max
}

// char reads one character or escape.
func (n *notation) char(i int) (byte, int) {
	if i >= len(n.s) {
		return 0, -1
	}
	if !n.is(i, '\\') {
		return n.s[i], i + 1
	}
	i++
	if i >= len(n.s) {
		return 0, -1
	}
	switch n.s[i] {
	case 'n':
		return '\n', i + 1
	case 'r':
		return '\r', i + 1
	case 't':
		return '\t', i + 1
	case '\'', '"', '[', ']', '\\', '-':
		return n.s[i], i + 1
	}
	d := func(k int) byte { return n.s[i+k] - '0' }
	if n.octal(i, '2') && n.octal(i+1, '7') && n.octal(i+2, '7') {
		return d(0)<<6 | d(1)<<3 | d(2), i + 3
	}
	if n.octal(i, '7') {
		if n.octal(i+1, '7') {
			return d(0)<<3 | d(1), i + 2
		}
		return d(0), i + 1
	}
	return 0, -1
}

// In is membership in a class.
func (p *P) In(c byte) bool {
	r := false
	for _, x := range p.Ranges {
		r = r || x[0] <= c && c <= x[1]
	}
	return r != p.Neg
}
