package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Regular languages over Unicode: deterministic automata over a finite partition
// of the code points that is computed from every expression involved.

type alphabet struct {
	lo  []rune // start of each interval
	cls []int  // class of each interval
	n   int    // number of classes
	rep []rune // one member per class
	cut map[rune]bool
	// every set of characters some language tells from the others; characters that
	// are in the same sets are one class
	sets []string
	seen map[string][]rune
	pool map[string]*dfa
	memo map[memoKey]*dfa
}

type memoKey struct {
	op   byte
	x, y *dfa
}

func newAlphabet() *alphabet {
	return &alphabet{cut: map[rune]bool{0: true}, seen: map[string][]rune{}, pool: map[string]*dfa{}, memo: map[memoKey]*dfa{}}
}

// addSet adds a set of characters, given as ranges.
func (a *alphabet) addSet(rs []rune) {
	k := string(rs)
	for _, r := range rs {
		k += fmt.Sprintf(",%d", r)
	}
	if _, ok := a.seen[k]; ok {
		return
	}
	a.seen[k] = append([]rune(nil), rs...)
	a.sets = append(a.sets, k)
	for i := 0; i+1 < len(rs); i += 2 {
		a.cut[rs[i]] = true
		if rs[i+1] < unicode.MaxRune {
			a.cut[rs[i+1]+1] = true
		}
	}
}

func (a *alphabet) addRange(lo, hi rune) { a.addSet([]rune{lo, hi}) }

// addChars adds the set of the characters of a text.
func (a *alphabet) addChars(s string) {
	var rs []rune
	for _, r := range s {
		rs = append(rs, r, r)
	}
	a.addSet(rs)
}

func (a *alphabet) addRegexp(re *syntax.Regexp) {
	switch re.Op {
	case syntax.OpLiteral:
		for _, r := range re.Rune {
			set := []rune{r, r}
			if re.Flags&syntax.FoldCase != 0 {
				for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
					set = append(set, f, f)
				}
			}
			a.addSet(set)
		}
	case syntax.OpCharClass:
		a.addSet(re.Rune)
	case syntax.OpAnyCharNotNL:
		a.addRange('\n', '\n')
	}
	for _, s := range re.Sub {
		a.addRegexp(s)
	}
}

func (a *alphabet) addString(s string) {
	for _, r := range s {
		a.addRange(r, r)
	}
}

// freeze numbers the classes: intervals that no set tells apart are one class.
func (a *alphabet) freeze() {
	// surrogates never occur in a decoded string
	a.addRange(0xD800, 0xDFFF)
	a.lo = a.lo[:0]
	for r := range a.cut {
		a.lo = append(a.lo, r)
	}
	sort.Slice(a.lo, func(i, j int) bool { return a.lo[i] < a.lo[j] })
	sig := make([][]byte, len(a.lo))
	for n, k := range a.sets {
		rs := a.seen[k]
		for i, lo := range a.lo {
			for j := 0; j+1 < len(rs); j += 2 {
				if lo >= rs[j] && lo <= rs[j+1] {
					for len(sig[i]) <= n/8 {
						sig[i] = append(sig[i], 0)
					}
					sig[i][n/8] |= 1 << (n % 8)
				}
			}
		}
	}
	a.cls, a.rep = nil, nil
	a.n = 0
	num := map[string]int{}
	for i, lo := range a.lo {
		if lo >= 0xD800 && lo <= 0xDFFF {
			a.cls = append(a.cls, -1)
			continue
		}
		c, ok := num[string(sig[i])]
		if !ok {
			c = a.n
			num[string(sig[i])] = c
			a.rep = append(a.rep, lo)
			a.n++
		}
		a.cls = append(a.cls, c)
	}
	// nicer members for messages
	for i, lo := range a.lo {
		c := a.cls[i]
		if c < 0 {
			continue
		}
		hi := rune(unicode.MaxRune)
		if i+1 < len(a.lo) {
			hi = a.lo[i+1] - 1
		}
		for _, want := range "ax0 !~é" {
			if want >= lo && want <= hi {
				a.rep[c] = want
				break
			}
		}
	}
}

func (a *alphabet) classOf(r rune) int {
	i := sort.Search(len(a.lo), func(i int) bool { return a.lo[i] > r }) - 1
	return a.cls[i]
}

// classesOf are the classes of the intervals within lo..hi.
func (a *alphabet) set(set []bool, lo, hi rune) {
	for i, l := range a.lo {
		if l >= lo && l <= hi && a.cls[i] >= 0 {
			set[a.cls[i]] = true
		}
	}
}

// dfa is complete: every state has a successor for every class.
type dfa struct {
	a    *alphabet
	next [][]int
	acc  []bool
}

// nfa used while building: automata side by side, joined by empty moves.
type nfa struct {
	a   *alphabet
	eps [][]int32
	arc [][]int32 // one successor per class, -1 for none
	acc []bool
}

func newNFA(a *alphabet) *nfa { return &nfa{a: a} }

func (n *nfa) state() int {
	n.eps = append(n.eps, nil)
	n.arc = append(n.arc, nil)
	n.acc = append(n.acc, false)
	return len(n.eps) - 1
}

func (n *nfa) e(from, to int) { n.eps[from] = append(n.eps[from], int32(to)) }

// add copies an automaton; moves to its dead state are left out.
func (n *nfa) add(d *dfa) (start int, accepts []int) {
	base := len(n.eps)
	dead := d.dead()
	for s, row := range d.next {
		n.state()
		arc := make([]int32, len(row))
		for c, t := range row {
			arc[c] = int32(base + t)
			if t == dead {
				arc[c] = -1
			}
		}
		n.arc[base+s] = arc
		if d.acc[s] {
			accepts = append(accepts, base+s)
		}
	}
	return base, accepts
}

// dead is the state nothing is accepted from (at most one in a minimal automaton), or -1.
func (d *dfa) dead() int {
next:
	for s, row := range d.next {
		if d.acc[s] {
			continue
		}
		for _, t := range row {
			if t != s {
				continue next
			}
		}
		return s
	}
	return -1
}

const maxStates = 20000

type tooBig struct{}

func (n *nfa) determinize(start int) *dfa {
	mark := make([]int, len(n.eps))
	stamp := 0
	closure := func(set []int32) []int32 {
		stamp++
		out := set[:0:0]
		for _, s := range set {
			if mark[s] != stamp {
				mark[s] = stamp
				out = append(out, s)
			}
		}
		for i := 0; i < len(out); i++ {
			for _, t := range n.eps[out[i]] {
				if mark[t] != stamp {
					mark[t] = stamp
					out = append(out, t)
				}
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		return out
	}
	key := func(s []int32) string {
		b := make([]byte, 0, len(s)*4)
		for _, x := range s {
			b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
		}
		return string(b)
	}
	d := &dfa{a: n.a}
	idx := map[string]int{}
	var sets [][]int32
	get := func(s []int32) int {
		k := key(s)
		if i, ok := idx[k]; ok {
			return i
		}
		i := len(sets)
		if i > maxStates {
			panic(tooBig{})
		}
		idx[k] = i
		sets = append(sets, s)
		acc := false
		for _, x := range s {
			acc = acc || n.acc[x]
		}
		d.acc = append(d.acc, acc)
		d.next = append(d.next, nil)
		return i
	}
	get(closure([]int32{int32(start)}))
	var buf []int32
	for i := 0; i < len(sets); i++ {
		row := make([]int, n.a.n)
		for c := 0; c < n.a.n; c++ {
			buf = buf[:0]
			for _, s := range sets[i] {
				if arc := n.arc[s]; arc != nil && arc[c] >= 0 {
					buf = append(buf, arc[c])
				}
			}
			row[c] = get(closure(buf))
		}
		d.next[i] = row
	}
	return d.minimize()
}

// minimize gives the one minimal automaton of the language, states numbered in
// breadth-first order: two languages are equal when the pointers are.
func (d *dfa) minimize() *dfa {
	n := len(d.next)
	part := make([]int32, n)
	for i := range part {
		if d.acc[i] {
			part[i] = 1
		}
	}
	count := 0
	buf := make([]byte, 0, 4*(d.a.n+1))
	for {
		idx := make(map[string]int32, count*2)
		np := make([]int32, n)
		for i := range part {
			buf = buf[:0]
			p := part[i]
			buf = append(buf, byte(p), byte(p>>8), byte(p>>16))
			for _, t := range d.next[i] {
				p := part[t]
				buf = append(buf, byte(p), byte(p>>8), byte(p>>16))
			}
			j, ok := idx[string(buf)]
			if !ok {
				j = int32(len(idx))
				idx[string(buf)] = j
			}
			np[i] = j
		}
		part = np
		if len(idx) == count {
			break
		}
		count = len(idx)
	}
	rep := make([]int, count)
	for i := n - 1; i >= 0; i-- {
		rep[part[i]] = i
	}
	perm := make([]int, count)
	for i := range perm {
		perm[i] = -1
	}
	m := &dfa{a: d.a}
	order := []int32{part[0]}
	perm[part[0]] = 0
	var key strings.Builder
	for i := 0; i < len(order); i++ {
		src := rep[order[i]]
		row := make([]int, d.a.n)
		for c, t := range d.next[src] {
			p := part[t]
			if perm[p] < 0 {
				perm[p] = len(order)
				order = append(order, p)
			}
			row[c] = perm[p]
			k := perm[p]
			key.WriteByte(byte(k))
			key.WriteByte(byte(k >> 8))
			key.WriteByte(byte(k >> 16))
		}
		m.next = append(m.next, row)
		m.acc = append(m.acc, d.acc[src])
		if d.acc[src] {
			key.WriteByte('!')
		} else {
			key.WriteByte('.')
		}
	}
	if old, ok := d.a.pool[key.String()]; ok {
		return old
	}
	d.a.pool[key.String()] = m
	return m
}

func (x *dfa) cached(op byte, y *dfa, f func() *dfa) *dfa {
	k := memoKey{op, x, y}
	if d, ok := x.a.memo[k]; ok {
		return d
	}
	d := f()
	x.a.memo[k] = d
	return d
}

// set operations

func (x *dfa) product(y *dfa, f func(a, b bool) bool) *dfa {
	type pair struct{ a, b int }
	idx := map[pair]int{}
	var ps []pair
	d := &dfa{a: x.a}
	get := func(p pair) int {
		if i, ok := idx[p]; ok {
			return i
		}
		if len(ps) > maxStates*4 {
			panic(tooBig{})
		}
		idx[p] = len(ps)
		ps = append(ps, p)
		d.acc = append(d.acc, f(x.acc[p.a], y.acc[p.b]))
		d.next = append(d.next, nil)
		return len(ps) - 1
	}
	get(pair{0, 0})
	for i := 0; i < len(ps); i++ {
		row := make([]int, x.a.n)
		for c := range row {
			row[c] = get(pair{x.next[ps[i].a][c], y.next[ps[i].b][c]})
		}
		d.next[i] = row
	}
	return d.minimize()
}

func (x *dfa) and(y *dfa) *dfa {
	return x.cached('&', y, func() *dfa { return x.product(y, func(a, b bool) bool { return a && b }) })
}
func (x *dfa) or(y *dfa) *dfa {
	return x.cached('|', y, func() *dfa { return x.product(y, func(a, b bool) bool { return a || b }) })
}
func (x *dfa) minus(y *dfa) *dfa {
	return x.cached('-', y, func() *dfa { return x.product(y, func(a, b bool) bool { return a && !b }) })
}

func (x *dfa) not() *dfa {
	return x.cached('!', nil, func() *dfa {
		d := &dfa{a: x.a, next: x.next}
		for _, b := range x.acc {
			d.acc = append(d.acc, !b)
		}
		return d.minimize()
	})
}

func (x *dfa) then(y *dfa) *dfa {
	return x.cached('.', y, func() *dfa {
		n := newNFA(x.a)
		s, xa := n.add(x)
		t, ya := n.add(y)
		for _, a := range xa {
			n.e(a, t)
		}
		for _, a := range ya {
			n.acc[a] = true
		}
		return n.determinize(s)
	})
}

func (x *dfa) star() *dfa {
	return x.cached('*', nil, func() *dfa {
		n := newNFA(x.a)
		st := n.state()
		s, xa := n.add(x)
		n.e(st, s)
		n.acc[st] = true
		for _, a := range xa {
			n.e(a, st)
		}
		return n.determinize(st)
	})
}

func (x *dfa) plus() *dfa { return x.then(x.star()) }
func (x *dfa) opt() *dfa  { return x.or(x.a.epsilon()) }

// example is a shortest member; ok is false for the empty language.
func (x *dfa) example() (string, bool) {
	type back struct {
		from int
		c    int
	}
	prev := map[int]back{0: {-1, -1}}
	q := []int{0}
	for len(q) > 0 {
		s := q[0]
		q = q[1:]
		if x.acc[s] {
			var rs []rune
			for s != 0 || prev[s].from != -1 {
				b := prev[s]
				rs = append([]rune{x.a.rep[b.c]}, rs...)
				s = b.from
			}
			return string(rs), true
		}
		for c, t := range x.next[s] {
			if _, ok := prev[t]; !ok {
				prev[t] = back{s, c}
				q = append(q, t)
			}
		}
	}
	return "", false
}

func (x *dfa) empty() bool { _, ok := x.example(); return !ok }

// within reports whether x is a subset of y, else a member of the difference.
func (x *dfa) within(y *dfa) (string, bool) {
	w, ok := x.minus(y).example()
	return w, !ok
}

func (x *dfa) has(s string) bool {
	st := 0
	for _, r := range s {
		c := x.a.classOf(r)
		if c < 0 {
			return false
		}
		st = x.next[st][c]
	}
	return x.acc[st]
}

func (a *alphabet) none() *dfa {
	row := make([]int, a.n)
	return (&dfa{a: a, next: [][]int{row}, acc: []bool{false}}).minimize()
}

func (a *alphabet) any() *dfa { return a.none().not() } // every string

func (a *alphabet) epsilon() *dfa {
	r0, r1 := make([]int, a.n), make([]int, a.n)
	for i := range r0 {
		r0[i], r1[i] = 1, 1
	}
	return (&dfa{a: a, next: [][]int{r0, r1}, acc: []bool{true, false}}).minimize()
}

func (a *alphabet) oneOf(set []bool) *dfa {
	d := &dfa{a: a, next: [][]int{make([]int, a.n), make([]int, a.n), make([]int, a.n)}, acc: []bool{false, true, false}}
	for c := range set {
		d.next[0][c] = 2
		if set[c] {
			d.next[0][c] = 1
		}
		d.next[1][c], d.next[2][c] = 2, 2
	}
	return d.minimize()
}

func (a *alphabet) lit(s string) *dfa {
	d := a.epsilon()
	rs := []rune(s)
	for i := len(rs) - 1; i >= 0; i-- {
		set := make([]bool, a.n)
		if c := a.classOf(rs[i]); c >= 0 {
			set[c] = true
		}
		d = a.oneOf(set).then(d)
	}
	return d
}

// single is the language of one-character strings from an expression node, or nil.
func (a *alphabet) single(re *syntax.Regexp) *dfa {
	set := make([]bool, a.n)
	switch re.Op {
	case syntax.OpLiteral:
		if len(re.Rune) != 1 {
			return nil
		}
		r := re.Rune[0]
		a.set(set, r, r)
		if re.Flags&syntax.FoldCase != 0 {
			for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
				a.set(set, f, f)
			}
		}
	case syntax.OpCharClass:
		for i := 0; i+1 < len(re.Rune); i += 2 {
			a.set(set, re.Rune[i], re.Rune[i+1])
		}
	case syntax.OpAnyChar:
		for i := range set {
			set[i] = true
		}
	case syntax.OpAnyCharNotNL:
		for i := range set {
			set[i] = true
		}
		if c := a.classOf('\n'); c >= 0 {
			set[c] = false
		}
	default:
		return nil
	}
	return a.oneOf(set)
}

type unsupportedRE struct{ what string }

// matched computes the languages of a (sub)expression followed by a rest, under
// the leftmost-first rule of package regexp: con takes the constraints on
// groups into account, dom ignores them. groups[k] restricts group k.
type reLang struct {
	a      *alphabet
	groups map[int]*dfa
	// unmatched groups are "" in FindStringSubmatch; a restriction that refuses ""
	// therefore also refuses matches that skip the group.
}

type langPair struct{ con, dom *dfa }

func (r *reLang) seq(re *syntax.Regexp, rest langPair, skip bool) langPair {
	a := r.a
	if d := a.single(re); d != nil {
		return langPair{d.then(rest.con), d.then(rest.dom)}
	}
	switch re.Op {
	case syntax.OpEmptyMatch:
		return rest
	case syntax.OpNoMatch:
		return langPair{a.none(), a.none()}
	case syntax.OpLiteral:
		out := rest
		for i := len(re.Rune) - 1; i >= 0; i-- {
			c := &syntax.Regexp{Op: syntax.OpLiteral, Flags: re.Flags, Rune: re.Rune[i : i+1]}
			d := a.single(c)
			out = langPair{d.then(out.con), d.then(out.dom)}
		}
		return out
	case syntax.OpEndText:
		e := a.epsilon()
		return langPair{rest.con.and(e), rest.dom.and(e)}
	case syntax.OpConcat:
		out := rest
		for i := len(re.Sub) - 1; i >= 0; i-- {
			out = r.seq(re.Sub[i], out, false)
		}
		return out
	case syntax.OpAlternate:
		var con, dom *dfa
		for _, s := range re.Sub {
			p := r.seq(s, rest, false)
			c := r.without(re, s, p.con)
			if dom == nil {
				con, dom = c, p.dom
			} else {
				con, dom = con.or(c.minus(dom)), dom.or(p.dom)
			}
		}
		return langPair{con, dom}
	case syntax.OpCapture:
		k := re.Cap
		g := r.groups[k]
		if g == nil {
			return r.seq(re.Sub[0], rest, false)
		}
		sub := re.Sub[0]
		// a run of one class: exact
		if run, min := r.run(sub); run != nil {
			return r.greedyRun(run, min, g, rest)
		}
		eps := langPair{a.epsilon(), a.epsilon()}
		in := r.seq(sub, eps, false)
		return langPair{in.con.and(g).then(rest.con), r.seq(sub, rest, false).dom}
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
		if re.Flags&syntax.NonGreedy != 0 {
			p := r.plain(re)
			return langPair{p.then(rest.con), p.then(rest.dom)}
		}
		if re.Op == syntax.OpQuest {
			in := r.seq(re.Sub[0], rest, false)
			skipped := r.without(re.Sub[0], nil, rest.con)
			return langPair{in.con.or(skipped.minus(in.dom)), in.dom.or(rest.dom)}
		}
		if run, min := r.run(re); run != nil {
			return r.greedyRun(run, min, nil, rest)
		}
		p := r.plain(re)
		return langPair{p.then(rest.con), p.then(rest.dom)}
	}
	panic(unsupportedRE{re.String()})
}

// without: the groups of skipped (except those within kept) are empty.
func (r *reLang) without(skipped, kept *syntax.Regexp, d *dfa) *dfa {
	in := map[int]bool{}
	if kept != nil {
		groupsOf(kept, in)
	}
	all := map[int]bool{}
	groupsOf(skipped, all)
	for k := range all {
		if g := r.groups[k]; g != nil && !in[k] && !g.acc[0] {
			return r.a.none()
		}
	}
	return d
}

func groupsOf(re *syntax.Regexp, set map[int]bool) {
	if re.Op == syntax.OpCapture {
		set[re.Cap] = true
	}
	for _, s := range re.Sub {
		groupsOf(s, set)
	}
}

// run recognises C* and C+ (and their captures are handled by the caller).
func (r *reLang) run(re *syntax.Regexp) (*dfa, int) {
	if (re.Op == syntax.OpStar || re.Op == syntax.OpPlus) && re.Flags&syntax.NonGreedy == 0 {
		if d := r.a.single(re.Sub[0]); d != nil {
			if re.Op == syntax.OpPlus {
				return d, 1
			}
			return d, 0
		}
	}
	return nil, 0
}

func (r *reLang) greedyRun(c *dfa, min int, g *dfa, rest langPair) langPair {
	all := c.star()
	if min == 1 {
		all = c.plus()
	}
	con := all
	if g != nil {
		con = con.and(g)
	}
	// the run takes as much as it can: what follows must not be more of it
	more := c.plus().then(rest.dom)
	return langPair{con.then(rest.con.minus(more)), all.then(rest.dom)}
}

// plain is the set of strings a subexpression can match, without priorities.
func (r *reLang) plain(re *syntax.Regexp) *dfa {
	a := r.a
	if d := a.single(re); d != nil {
		return d
	}
	switch re.Op {
	case syntax.OpEmptyMatch:
		return a.epsilon()
	case syntax.OpNoMatch:
		return a.none()
	case syntax.OpLiteral:
		d := a.epsilon()
		for i := len(re.Rune) - 1; i >= 0; i-- {
			c := &syntax.Regexp{Op: syntax.OpLiteral, Flags: re.Flags, Rune: re.Rune[i : i+1]}
			d = a.single(c).then(d)
		}
		return d
	case syntax.OpCapture:
		d := r.plain(re.Sub[0])
		if g := r.groups[re.Cap]; g != nil {
			d = d.and(g)
		}
		return d
	case syntax.OpConcat:
		d := a.epsilon()
		for i := len(re.Sub) - 1; i >= 0; i-- {
			d = r.plain(re.Sub[i]).then(d)
		}
		return d
	case syntax.OpAlternate:
		d := a.none()
		for _, s := range re.Sub {
			d = d.or(r.plain(s))
		}
		return d
	case syntax.OpStar:
		return r.plain(re.Sub[0]).star()
	case syntax.OpPlus:
		return r.plain(re.Sub[0]).plus()
	case syntax.OpQuest:
		return r.plain(re.Sub[0]).opt()
	}
	panic(unsupportedRE{re.String()})
}

// strip takes leading ^ (or \A) and trailing $ (or \z) off.
func stripAnchors(re *syntax.Regexp) (body *syntax.Regexp, begin, end bool) {
	switch re.Op {
	case syntax.OpBeginText:
		return &syntax.Regexp{Op: syntax.OpEmptyMatch}, true, false
	case syntax.OpEndText:
		return &syntax.Regexp{Op: syntax.OpEmptyMatch}, false, true
	case syntax.OpConcat:
		sub := re.Sub
		for len(sub) > 0 && sub[0].Op == syntax.OpBeginText {
			begin = true
			sub = sub[1:]
		}
		for len(sub) > 0 && sub[len(sub)-1].Op == syntax.OpEndText {
			end = true
			sub = sub[:len(sub)-1]
		}
		c := *re
		c.Sub = append([]*syntax.Regexp(nil), sub...)
		if len(sub) == 0 {
			c = syntax.Regexp{Op: syntax.OpEmptyMatch}
		}
		return &c, begin, end
	case syntax.OpCapture:
		b, x, y := stripAnchors(re.Sub[0])
		c := *re
		c.Sub = []*syntax.Regexp{b}
		return &c, x, y
	case syntax.OpAlternate:
		c := *re
		c.Sub = nil
		begin, end = true, true
		for _, s := range re.Sub {
			b, x, y := stripAnchors(s)
			begin, end = begin && x, end && y
			c.Sub = append(c.Sub, b)
		}
		if begin == anyAnchored(re.Sub, true) && end == anyAnchored(re.Sub, false) {
			return &c, begin, end
		}
	}
	return re, false, false
}

func anyAnchored(subs []*syntax.Regexp, begin bool) bool {
	for _, s := range subs {
		_, x, y := stripAnchors(s)
		if begin && x || !begin && y {
			return true
		}
	}
	return false
}

func parseRE(expr string) (*syntax.Regexp, error) {
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	return re.Simplify(), nil
}

// matchLang: the strings for which MatchString (or FindString…) succeeds, groups restricted.
func (a *alphabet) matchLang(expr string, groups map[int]*dfa) (d *dfa, err error) {
	defer guardLang(&err)
	re, err := parseRE(expr)
	if err != nil {
		return nil, err
	}
	body, begin, end := stripAnchors(re)
	r := &reLang{a: a, groups: groups}
	rest := langPair{a.any(), a.any()}
	if end {
		rest = langPair{a.epsilon(), a.epsilon()}
	}
	p := r.seq(body, rest, false)
	if !begin {
		// leftmost: earlier starts do not match
		return a.any().then(p.con), nil
	}
	return p.con, nil
}

// prefixLang: the texts an expression anchored at the start can match (the match
// itself, not what follows).
func (a *alphabet) prefixLang(expr string, groups map[int]*dfa) (d *dfa, anchored bool, err error) {
	defer guardLang(&err)
	re, err := parseRE(expr)
	if err != nil {
		return nil, false, err
	}
	body, begin, _ := stripAnchors(re)
	r := &reLang{a: a, groups: groups}
	return r.plain(body), begin, nil
}

// spec: the strings an expression matches as a whole.
func (a *alphabet) spec(expr string) *dfa {
	re, err := parseRE(expr)
	if err != nil {
		panic(err)
	}
	body, _, _ := stripAnchors(re)
	return (&reLang{a: a}).plain(body)
}

func (a *alphabet) addExpr(expr string) error {
	re, err := parseRE(expr)
	if err != nil {
		return err
	}
	a.addRegexp(re)
	return nil
}

func guardLang(err *error) {
	switch x := recover().(type) {
	case nil:
	case tooBig:
		*err = fmt.Errorf("the automaton gets too large")
	case unsupportedRE:
		*err = fmt.Errorf("%q is not supported", x.what)
	default:
		panic(x)
	}
}

var _ = utf8.RuneError
