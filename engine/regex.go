package main

// Model of package regexp: patterns are compiled by the host's regexp/syntax, matching is a
// leftmost-first backtracking walk over the compiled program in which every test of a symbolic
// byte becomes a path decision. Everything above doExecute (submatches, replacement, ...) is
// interpreted from the standard library's source.

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"sync"
	"unicode"
)

type reInfo struct {
	expr string // with placeholders, if any
	host *regexp.Regexp
	prog *syntax.Prog
	ph   []Value // placeholder k stands for byte ph[k] (known to be < 0x80)
	sets sync.Map
}

const phBase = 0xF0000

var reCache sync.Map // pattern -> *reInfo or error

func reCompile(pat string) (*reInfo, error) {
	if v, ok := reCache.Load(pat); ok {
		if i, ok := v.(*reInfo); ok {
			return i, nil
		}
		return nil, v.(error)
	}
	h, err := regexp.Compile(pat)
	if err != nil {
		reCache.Store(pat, err)
		return nil, err
	}
	ast, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(ast.Simplify())
	if err != nil {
		return nil, err
	}
	i := &reInfo{expr: pat, host: h, prog: prog}
	reCache.Store(pat, i)
	return i, nil
}

var reIntrinsics map[string]intrinsic

func init() {
	reIntrinsics = map[string]intrinsic{
		"regexp.MustCompile": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
			re, err, pat := ip.reBuild(a[0])
			if err != nil {
				msg := "regexp: Compile(" + quoteRE(pat) + "): " + err.Error()
				panic(targetPanic{Iface{ip.P.canon(types.Typ[types.String]), msg}})
			}
			return re, true
		},
		"regexp.Compile": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
			re, err, _ := ip.reBuild(a[0])
			if err != nil {
				e, ok := err.(*syntax.Error)
				if !ok {
					ip.unsupported("regexp error %T", err)
				}
				t := ip.P.canon(types.NewPointer(ip.P.tpkgs["regexp/syntax"].Scope().Lookup("Error").Type()))
				return Tuple{nilPtr, Iface{t, newSlot(Struct{string(e.Code), e.Expr})}}, true
			}
			return Tuple{re, Iface{}}, true
		},
		"regexp.QuoteMeta": hostStr(func(ip *Interp, a []Value) Value { return regexp.QuoteMeta(s0(a)) }),
		"regexp.special": always(func(ip *Interp, a []Value) Value {
			var r Value = true
			for _, c := range []byte(`\.+*?()|[]{}^$`) {
				r = ip.and(r, ip.not(ip.byteEq(a[0], int64(c))))
			}
			return ip.not(r)
		}),
		"regexp/syntax.Parse": func(ip *Interp, fn *finfo, a []Value) (Value, bool) {
			pat, ok := a[0].(string)
			if !ok {
				pat = ip.concAll(a[0].(*SymStr))
			}
			re, err := syntax.Parse(pat, syntax.Flags(a[1].(int64)))
			if err != nil {
				e := err.(*syntax.Error)
				t := ip.P.canon(types.NewPointer(ip.P.tpkgs["regexp/syntax"].Scope().Lookup("Error").Type()))
				return Tuple{nilPtr, Iface{t, newSlot(Struct{string(e.Code), e.Expr})}}, true
			}
			return Tuple{reSyntax(re), Iface{}}, true
		},
		"(*regexp.Regexp).doExecute": reExecute,
		"(*regexp.Regexp).find":      reExecute, // Go 1.27
	}
}

// reSyntax is a parsed pattern as a value of the interpreter.
func reSyntax(re *syntax.Regexp) *Value {
	var sub, runes Slice
	for _, s := range re.Sub {
		sub = append(sub, reSyntax(s))
	}
	for _, r := range re.Rune {
		runes = append(runes, int64(r))
	}
	return newSlot(Struct{int64(re.Op), int64(re.Flags), sub, Array{nilPtr}, runes, Array{int64(0), int64(0)},
		int64(re.Min), int64(re.Max), int64(re.Cap), re.Name})
}

func quoteRE(s string) string {
	for _, r := range s {
		if r == '`' || r == 0xfffd || (r < 0x20 && r != '\t') || r == 0x7f {
			return strconvQuote(s)
		}
	}
	return "`" + s + "`"
}

func (ip *Interp) reBuild(p Value) (Value, error, string) {
	var info *reInfo
	var err error
	var pat string
	switch s := p.(type) {
	case string:
		pat = s
		info, err = reCompile(s)
	case *SymStr:
		info, err, pat = ip.reSym(s)
	}
	if err != nil {
		return nil, err, pat
	}
	rt := ip.P.tpkgs["regexp"].Scope().Lookup("Regexp").Type()
	st := rt.Underlying().(*types.Struct)
	out := zero(rt).(Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "expr":
			if info.ph == nil {
				out[i] = info.expr
			} else {
				out[i] = p
			}
		case "numSubexp":
			out[i] = int64(info.host.NumSubexp())
		case "subexpNames":
			out[i] = strSliceVal(info.host.SubexpNames())
		case "prog":
			pt := st.Field(i).Type().Underlying().(*types.Pointer).Elem()
			ps := zero(pt).(Struct)
			pst := pt.Underlying().(*types.Struct)
			for j := 0; j < pst.NumFields(); j++ {
				if pst.Field(j).Name() == "NumCap" {
					ps[j] = int64(info.prog.NumCap)
				}
			}
			out[i] = newSlot(ps)
		case "onepass":
			out[i] = UPtr{info}
		}
	}
	return newSlot(out), nil, pat
}

// concAll concretises every byte of s.
func (ip *Interp) concAll(s Value) string {
	if c, ok := s.(string); ok {
		return c
	}
	b := strBytes(s)
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = byte(ip.intVal(x))
	}
	return string(out)
}

var reMetaSet, reNotPunct [256]bool

func init() {
	for _, c := range `\.+*?()|[]{}^$` {
		reMetaSet[c] = true
	}
	for i := 0; i < 256; i++ {
		if i >= 0x80 {
			reMetaSet[i] = true
		}
		reNotPunct[i] = i >= 0x80 || i == '_' || i < 0x20 || i == ' ' || i == 0x7f || unicode.IsLetter(rune(i)) || unicode.IsDigit(rune(i))
	}
}

func (ip *Interp) reSym(s *SymStr) (*reInfo, error, string) {
	all := func() (*reInfo, error, string) {
		c := ip.concAll(s)
		i, err := reCompile(c)
		return i, err, c
	}
	var out []rune
	var ph []Value
	bs := s.b
	inClass, inBrace, inGroup := false, false, false
	for i := 0; i < len(bs); i++ {
		switch b := bs[i].(type) {
		case int64:
			c := byte(b)
			if c >= 0x80 {
				return all()
			}
			if c == '\\' {
				if i+1 >= len(bs) {
					return all()
				}
				switch n := bs[i+1].(type) {
				case int64:
					if n == 'x' || n == 'p' || n == 'P' || n == 'Q' || (n >= '0' && n <= '9') {
						return all()
					}
					out = append(out, '\\', rune(n))
					i++
				case *Term:
					if inClass || inBrace || inGroup || ip.branch(ip.inSet(n, reNotPunct[:])) {
						return all()
					}
					out = append(out, rune(phBase+len(ph)))
					ph = append(ph, n)
					i++
				}
				continue
			}
			switch {
			case inClass:
				if c == ']' {
					inClass = false
				}
			case c == '[':
				inClass = true
			case c == '{':
				inBrace = true
			case c == '}':
				inBrace = false
			case c == '(' && i+1 < len(bs) && bs[i+1] == int64('?'):
				inGroup = true
				for j := i + 2; j < len(bs) && j < i+6; j++ {
					if bs[j] == int64('i') || bs[j] == int64('P') || bs[j] == int64('<') {
						return all()
					}
				}
			case inGroup && (c == ':' || c == ')'):
				inGroup = false
			case c == '(' && i+1 < len(bs):
				if _, sym := bs[i+1].(*Term); sym {
					// could become "(?"
				}
			}
			out = append(out, rune(c))
		case *Term:
			if inClass || inBrace || inGroup {
				return all()
			}
			if ip.branch(ip.inSet(b, reMetaSet[:])) {
				return all()
			}
			out = append(out, rune(phBase+len(ph)))
			ph = append(ph, b)
		}
	}
	pat := string(out)
	h, err := regexp.Compile(pat)
	if err != nil {
		return all()
	}
	ast, _ := syntax.Parse(pat, syntax.Perl)
	prog, err := syntax.Compile(ast.Simplify())
	if err != nil {
		return all()
	}
	seen := make([]bool, len(ph))
	for i := range prog.Inst {
		for _, k := range phIn(&prog.Inst[i], len(ph)) {
			seen[k] = true
		}
	}
	for _, x := range seen {
		if !x {
			return all()
		}
	}
	return &reInfo{expr: pat, host: h, prog: prog, ph: ph}, nil, pat
}

func phIn(in *syntax.Inst, n int) []int {
	var out []int
	switch in.Op {
	case syntax.InstRune, syntax.InstRune1:
	default:
		return nil
	}
	rs := in.Rune
	if len(rs) == 1 {
		if k := int(rs[0]) - phBase; k >= 0 && k < n {
			out = append(out, k)
		}
		return out
	}
	for j := 0; j+1 < len(rs); j += 2 {
		if int(rs[j]) >= phBase && int(rs[j+1]) < phBase+n {
			for k := int(rs[j]) - phBase; k <= int(rs[j+1])-phBase; k++ {
				out = append(out, k)
			}
		}
	}
	return out
}

func instMatch(in *syntax.Inst, r rune) bool {
	switch in.Op {
	case syntax.InstRuneAny:
		return true
	case syntax.InstRuneAnyNotNL:
		return r != '\n'
	}
	return in.MatchRune(r)
}

func (info *reInfo) asciiSet(pc uint32) []bool {
	if v, ok := info.sets.Load(pc); ok {
		return v.([]bool)
	}
	set := make([]bool, 128)
	for i := range set {
		set[i] = instMatch(&info.prog.Inst[pc], rune(i))
	}
	info.sets.Store(pc, set)
	return set
}

type reMatcher struct {
	ip    *Interp
	info  *reInfo
	text  Value
	n     int
	cap   []int
	seen  map[[2]int]bool
	runes map[int]reRune
	match []int
}

type reRune struct {
	r Value // int64 or *Term (32 bits)
	w int
}

func (m *reMatcher) runeAt(i int) reRune {
	if r, ok := m.runes[i]; ok {
		return r
	}
	r, w := m.ip.decodeRune(m.text, i)
	x := reRune{r, w}
	m.runes[i] = x
	return x
}

func (m *reMatcher) test(pc uint32, r reRune) bool {
	in := &m.info.prog.Inst[pc]
	ip := m.ip
	if len(m.info.ph) > 0 {
		if ks := phIn(in, len(m.info.ph)); len(ks) > 0 {
			for _, k := range ks {
				switch x := r.r.(type) {
				case int64:
					if x < 0x80 && ip.boolVal(ip.byteEq(m.info.ph[k], x)) {
						return true
					}
				case *Term:
					if ip.branch(ip.tc.Eq(x, ip.tc.Zext(ip.term(m.info.ph[k], 8), 32))) {
						return true
					}
				}
			}
			if len(in.Rune) == 1 {
				return false
			}
		}
	}
	switch x := r.r.(type) {
	case int64:
		return instMatch(in, rune(x))
	case *Term:
		if r.w == 1 {
			// known to be ASCII
			set := m.info.asciiSet(pc)
			t := x
			if t.op == OZext {
				t = t.a[0]
			}
			return ip.branch(ip.inSet(t, set))
		}
		return instMatch(in, rune(int32(ip.concretize(x))))
	}
	panic("reMatcher.test")
}

func (m *reMatcher) isWord(v Value) bool {
	switch x := v.(type) {
	case int64:
		return syntax.IsWordChar(rune(x))
	case *Term:
		var set [256]bool
		for i := 0; i < 128; i++ {
			set[i] = syntax.IsWordChar(rune(i))
		}
		return m.ip.branch(m.ip.inSet(x, set[:]))
	}
	return false
}

func (m *reMatcher) isNL(v Value) bool { return m.ip.boolVal(m.ip.byteEq(v, int64('\n'))) }

// empty decides the empty-width conditions at position i. Newlines and word characters are
// ASCII, so looking at the neighbouring bytes suffices.
func (m *reMatcher) empty(op syntax.EmptyOp, i int) bool {
	if op&syntax.EmptyBeginText != 0 && i != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && i != m.n {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && !(i == 0 || m.isNL(strAt(m.text, i-1))) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && !(i == m.n || m.isNL(strAt(m.text, i))) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		a := i > 0 && m.isWord(strAt(m.text, i-1))
		b := i < m.n && m.isWord(strAt(m.text, i))
		if op&syntax.EmptyWordBoundary != 0 && a == b {
			return false
		}
		if op&syntax.EmptyNoWordBoundary != 0 && a != b {
			return false
		}
	}
	return true
}

func (m *reMatcher) run(pc uint32, pos int) bool {
	for {
		key := [2]int{int(pc), pos}
		in := &m.info.prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
			return false
		case syntax.InstAlt, syntax.InstAltMatch:
			if m.seen[key] {
				return false
			}
			m.seen[key] = true
			if m.run(in.Out, pos) {
				return true
			}
			pc = in.Arg
		case syntax.InstCapture:
			if int(in.Arg) < len(m.cap) {
				old := m.cap[in.Arg]
				m.cap[in.Arg] = pos
				if m.run(in.Out, pos) {
					return true
				}
				m.cap[in.Arg] = old
				return false
			}
			pc = in.Out
		case syntax.InstEmptyWidth:
			if !m.empty(syntax.EmptyOp(in.Arg), pos) {
				return false
			}
			pc = in.Out
		case syntax.InstMatch:
			m.cap[1] = pos
			m.match = append([]int(nil), m.cap...)
			return true
		case syntax.InstNop:
			pc = in.Out
		default:
			if pos >= m.n {
				return false
			}
			r := m.runeAt(pos)
			if !m.test(pc, r) {
				return false
			}
			pos += r.w
			pc = in.Out
		}
	}
}

// doExecute(re, r io.RuneReader, b []byte, s string, pos int, ncap int, dstCap []int) []int
func reExecute(ip *Interp, fn *finfo, a []Value) (Value, bool) {
	st := (*a[0].(*Value)).(Struct)
	var info *reInfo
	for _, f := range st {
		if u, ok := f.(UPtr); ok {
			if i, ok := u.v.(*reInfo); ok {
				info = i
			}
		}
	}
	if info == nil {
		ip.unsupported("uninitialised regexp")
	}
	if r, ok := a[1].(Iface); ok && r.t != nil {
		ip.unsupported("regexp on a RuneReader")
	}
	text := a[3]
	if b, ok := a[2].(Slice); ok && b != nil {
		text = mkStr(b)
	}
	pos := int(ip.intVal(a[4]))
	ncap := int(ip.intVal(a[5]))
	dst := a[6].(Slice)
	ret := func(loc []int) (Value, bool) {
		if loc == nil {
			return Slice(nil), true
		}
		if ncap == 0 {
			return Slice{}, true // matched, nothing asked for
		}
		out := append(Slice(nil), dst...)
		for i := 0; i < ncap; i++ {
			if i < len(loc) {
				out = append(out, int64(loc[i]))
			} else {
				out = append(out, int64(-1))
			}
		}
		return out[:len(out):len(out)], true
	}
	if s, ok := text.(string); ok && pos == 0 && info.ph == nil {
		return ret(info.host.FindStringSubmatchIndex(s))
	}
	m := &reMatcher{ip: ip, info: info, text: text, n: strLen(text), seen: map[[2]int]bool{}, runes: map[int]reRune{}}
	nc := info.prog.NumCap
	if nc < 2 {
		nc = 2
	}
	anchored := info.prog.StartCond()&syntax.EmptyBeginText != 0
	for p := pos; p <= m.n; {
		if anchored && p != 0 {
			break
		}
		m.cap = make([]int, nc)
		for i := range m.cap {
			m.cap[i] = -1
		}
		m.cap[0] = p
		if m.run(uint32(info.prog.Start), p) {
			m.match[0] = p
			return ret(m.match)
		}
		if p == m.n {
			break
		}
		p += m.runeAt(p).w
	}
	return ret(nil)
}
