// Package ref is an independent executable reference model of Booklit: a
// parser, an evaluator and renderers written from the documented language and
// grammar, against which the monitors compare what the real code produced.
package ref

import (
	"unicode/utf8"
)

// Node is a syntax node of the reference parser.
type Node interface{}

type (
	// NStr is literal text.
	NStr string
	// NSeq is adjacent nodes.
	NSeq []Node
	// NPara is a paragraph: a list of lines.
	NPara []NSeq
	// NPre is preformatted text: a list of lines.
	NPre []NSeq
	// NInvoke is a function call.
	NInvoke struct {
		Fn   string
		Args []Node
		Loc  Loc
	}
)

// Loc is a source location; columns count characters.
type Loc struct {
	Line, Col int
}

type memoKey struct {
	rule byte
	pos  int
}

type memoVal struct {
	node Node
	end  int // -1: no match
	cost float64
}

// Parser is a memoizing recursive descent parser which also estimates how much
// work a parser without memoization needs, so that inputs which send such a
// parser into exponential backtracking can be left out of a workload.
type Parser struct {
	src   []rune
	bytes []int // byte offset of each rune (unused by most)
	lines []Loc
	memo  map[memoKey]memoVal
	cost  float64
	depth int
	max   int
}

// Result is the outcome of a parse.
type Result struct {
	Node  Node
	OK    bool
	Cost  float64
	Depth int
	// Furthest position reached is not modelled.
}

// Parse parses a whole document.
func Parse(src string) Result {
	if !utf8.ValidString(src) {
		return Result{}
	}

	p := &Parser{src: []rune(src), memo: map[memoKey]memoVal{}}

	line, col := 1, 0
	for _, r := range p.src {
		if r == '\n' {
			line++
			col = 0
		} else {
			col++
		}
		p.lines = append(p.lines, Loc{line, col})
	}

	node, end := p.paragraphs(0)
	ok := end == len(p.src)
	return Result{Node: node, OK: ok, Cost: p.cost, Depth: p.max}
}

func (p *Parser) at(i int) rune {
	if i < len(p.src) {
		return p.src[i]
	}
	return -1
}

func (p *Parser) has(i int, s string) bool {
	for _, r := range s {
		if p.at(i) != r {
			return false
		}
		i++
	}
	return true
}

func (p *Parser) blanks(i int) int {
	for p.at(i) == ' ' || p.at(i) == '\t' {
		i++
		p.cost++
	}
	return i
}

func (p *Parser) lineBreak(i int) int {
	p.cost++
	if p.at(i) == '\n' {
		return i + 1
	}
	if p.has(i, "\r\n") {
		return i + 2
	}
	return -1
}

func (p *Parser) memoize(rule byte, i int, f func() (Node, int)) (Node, int) {
	k := memoKey{rule, i}
	if v, ok := p.memo[k]; ok {
		p.cost += v.cost
		return v.node, v.end
	}
	p.depth++
	if p.depth > p.max {
		p.max = p.depth
	}
	before := p.cost
	p.cost++
	n, e := f()
	p.depth--
	p.memo[k] = memoVal{n, e, p.cost - before}
	return n, e
}

// comment: blanks "{-" (nested comment or anything but "-}")* "-}"
func (p *Parser) comment(i int) int {
	_, e := p.memoize('c', i, func() (Node, int) {
		j := p.blanks(i)
		if !p.has(j, "{-") {
			return nil, -1
		}
		j += 2
		for {
			if e := p.comment(j); e >= 0 {
				j = e
				continue
			}
			if p.has(j, "-}") {
				return nil, j + 2
			}
			if j >= len(p.src) {
				return nil, -1
			}
			p.cost++
			j++
		}
	})
	return e
}

func (p *Parser) optComment(i int) int {
	if e := p.comment(i); e >= 0 {
		return e
	}
	return i
}

func (p *Parser) commentSpacing(i int) int {
	for {
		if e := p.lineBreak(i); e >= 0 {
			i = e
			continue
		}
		if e := p.comment(i); e >= 0 {
			i = e
			continue
		}
		return i
	}
}

func (p *Parser) paragraphs(i int) (Node, int) {
	return p.memoize('P', i, func() (Node, int) {
		i := p.commentSpacing(i)
		out := NSeq{}
		for {
			n, e := p.paragraph(i)
			if e < 0 {
				break
			}
			out = append(out, n)
			i = p.commentSpacing(e)
		}
		if len(out) == 0 {
			return nil, -1
		}
		return out, i
	})
}

func (p *Parser) paragraph(i int) (Node, int) {
	return p.memoize('p', i, func() (Node, int) {
		out := NPara{}
		for {
			l, e := p.line(i)
			if e < 0 {
				break
			}
			out = append(out, l.(NSeq))
			i = e
			if e := p.lineBreak(i); e >= 0 {
				i = e
			}
		}
		if len(out) == 0 {
			return nil, -1
		}
		return out, i
	})
}

func (p *Parser) line(i int) (Node, int) {
	return p.memoize('l', i, func() (Node, int) {
		words, e := p.words(p.blanks(i))
		if len(words) == 0 {
			return nil, -1
		}
		return words, e
	})
}

func (p *Parser) words(i int) (NSeq, int) {
	out := NSeq{}
	for {
		n, e := p.word(i)
		if e < 0 {
			return out, i
		}
		out = append(out, n)
		i = e
	}
}

func (p *Parser) word(i int) (Node, int) {
	return p.memoize('w', i, func() (Node, int) {
		i := p.optComment(i)
		n, e := p.str(i)
		if e < 0 {
			n, e = p.invoke(i)
		}
		if e < 0 {
			n, e = p.interpolated(i)
		}
		if e < 0 {
			return nil, -1
		}
		return n, p.optComment(e)
	})
}

func isText(r rune) bool {
	switch r {
	case -1, '\\', '{', '}', '\r', '\n':
		return false
	}
	return true
}

func (p *Parser) str(i int) (Node, int) {
	j := i
	for isText(p.at(j)) {
		j++
		p.cost++
	}
	if j > i {
		return NStr(p.src[i:j]), j
	}
	if p.at(i) == '\\' {
		switch p.at(i + 1) {
		case '\\', '{', '}':
			return NStr(p.src[i+1 : i+2]), i + 2
		}
	}
	return nil, -1
}

func (p *Parser) interpolated(i int) (Node, int) {
	if p.at(i) != '{' {
		return nil, -1
	}
	i++
	n, e := p.word(i)
	if e < 0 {
		n, e = NSeq{}, i
	}
	if p.at(e) != '}' {
		return nil, -1
	}
	return n, e + 1
}

func (p *Parser) invoke(i int) (Node, int) {
	return p.memoize('i', i, func() (Node, int) {
		if p.at(i) != '\\' {
			return nil, -1
		}
		j := i + 1
		for (p.at(j) >= 'a' && p.at(j) <= 'z') || p.at(j) == '-' {
			j++
		}
		if j == i+1 {
			return nil, -1
		}
		inv := NInvoke{Fn: string(p.src[i+1 : j]), Loc: p.lines[i]}
		for {
			n, e := p.argument(j)
			if e < 0 {
				return inv, j
			}
			inv.Args = append(inv.Args, n)
			j = e
		}
	})
}

func (p *Parser) argument(i int) (Node, int) {
	p.cost++
	if p.at(i) != '{' {
		return nil, -1
	}
	if p.has(i, "{{{") {
		if n, e := p.verbatim(i + 3); e >= 0 && p.has(e, "}}}") {
			return n, e + 3
		}
	}
	if p.has(i, "{{") {
		if n, e := p.preformatted(i + 2); e >= 0 && p.has(e, "}}") {
			return n, e + 2
		}
	}
	return p.arg(i + 1)
}

func (p *Parser) verbatimText(i int) (string, int) {
	j := i
	for {
		switch p.at(j) {
		case -1, '\r', '\n':
			return string(p.src[i:j]), j
		case '}':
			if p.has(j+1, "}}") {
				return string(p.src[i:j]), j
			}
		}
		p.cost++
		j++
	}
}

func (p *Parser) verbatim(i int) (Node, int) {
	start := p.lineBreak(i)
	if start < 0 {
		text, e := p.verbatimText(i)
		if text == "" {
			return NSeq{}, e
		}
		return NSeq{NStr(text)}, e
	}

	i = start
	out := NPre{}
	skip := -1
	for {
		j := p.blanks(i)
		if skip < 0 {
			skip = j - i
		}
		text, e := p.verbatimText(j)
		end := p.lineBreak(e)
		if end < 0 {
			return out, p.blanks(i)
		}
		out = append(out, NSeq{NStr(p.indent(i, j, skip)), NStr(text)})
		i = end
	}
}

func (p *Parser) indent(from, to, skip int) string {
	if to-from <= skip {
		return ""
	}
	return string(p.src[from+skip : to])
}

func (p *Parser) preformatted(i int) (Node, int) {
	i = p.lineBreak(i)
	if i < 0 {
		return nil, -1
	}

	out := NPre{}
	skip := -1
	for {
		j := p.blanks(i)
		if skip < 0 {
			skip = j - i
		}
		words, e := p.words(j)
		end := p.lineBreak(e)
		if end < 0 {
			return out, p.blanks(i)
		}
		out = append(out, append(NSeq{NStr(p.indent(i, j, skip))}, words...))
		i = end
	}
}

func (p *Parser) arg(i int) (Node, int) {
	n, e := p.wrapped(i)
	if e < 0 {
		n, e = p.paragraphs(i)
		if e >= 0 {
			e = p.blanks(e)
		}
	}
	if e < 0 {
		n, e = NStr(""), p.commentSpacing(i)
	}
	if p.at(e) != '}' {
		return nil, -1
	}
	return n, e + 1
}

func (p *Parser) wrapped(i int) (Node, int) {
	return p.memoize('W', i, func() (Node, int) {
		n, e := p.word(i)
		if e < 0 {
			return nil, -1
		}
		out := NSeq{n}
		i = e
		for {
			if n, e := p.word(i); e >= 0 {
				out = append(out, n)
				i = e
				continue
			}
			if e := p.lineBreak(i); e >= 0 {
				out = append(out, NStr(" "))
				i = p.blanks(e)
				continue
			}
			return out, i
		}
	})
}
