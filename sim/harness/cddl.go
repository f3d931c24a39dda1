//go:build go1.22

package verifharness

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"MODULE/internal/verifsim"
	"MODULE/token"
)

// Tok is a token whose kind, text and place are known by construction.
type Tok struct {
	Kind token.Token
	Lit  string // as the lexer reports it
	Raw  string // as written
	Off  int
	Line int
	Col  int
}

// RuleInfo is what is known about one rule of a generated source.
type RuleInfo struct {
	Name    string
	First   int      // index of its name token
	Last    int      // index of its last token (comments included)
	EndOff  int      // offset behind its last token
	Assign  string   // "=", "/=" or "//="
	Decl    []string // expected generated lines, whitespace collapsed
	IsVar   bool
	Refs    []string
	HasSize bool
}

// Source is a generated CDDL text with everything known about it.
type Source struct {
	Text  string
	Toks  []Tok
	Rules []RuleInfo
}

type renderer struct {
	ch    *verifsim.Chooser
	sb    strings.Builder
	toks  []Tok
	style int // 0 plain, 1 airy, 2 tight
	last  byte
	lines int // line ends so far
	line  int // where the last line starts
}

func (r *renderer) pos() (off, line, col int) {
	off = r.sb.Len()
	return off, 1 + r.lines, off - r.line + 1
}

func wordByte(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_' || b == '@' || b == '$' || b == '-' || b == '.'
}

// tok appends a token; glue says it needs no separator when punctuation.
func (r *renderer) tok(k token.Token, lit, raw string) int {
	if r.sb.Len() > 0 {
		prev := r.last
		need := wordByte(prev) && wordByte(raw[0]) || prev == '=' && raw[0] == '>' || prev == '/' && (raw[0] == '/' || raw[0] == '=') || prev == '.' && raw[0] == '.'
		switch {
		case prev == '\n' || prev == ' ' || prev == '\t':
		case need:
			r.space()
		case r.style == 2:
			if r.ch.P(1, 8) {
				r.space()
			}
		default:
			r.space()
		}
	}
	off, line, col := r.pos()
	r.toks = append(r.toks, Tok{k, lit, raw, off, line, col})
	r.raw(raw)
	return len(r.toks) - 1
}

func (r *renderer) raw(s string) {
	if n := strings.Count(s, "\n"); n > 0 {
		r.lines += n
		r.line = r.sb.Len() + strings.LastIndexByte(s, '\n') + 1
	}
	r.sb.WriteString(s)
	if len(s) > 0 {
		r.last = s[len(s)-1]
	}
}

func (r *renderer) space() {
	if r.style == 0 {
		r.raw(" ")
		return
	}
	switch r.ch.N(8) {
	case 5:
		r.raw("  ")
	case 6:
		r.raw("\t")
	case 7:
		r.raw(" \t ")
	default:
		r.raw(" ")
	}
}

func (r *renderer) newline() {
	if r.style == 1 && r.ch.P(1, 6) {
		r.raw("\r")
	}
	r.raw("\n")
	if r.style == 1 && r.ch.P(1, 4) {
		r.raw("\n")
	}
}

var kw = map[string]token.Token{
	"int": token.INT, "uint": token.UINT, "nint": token.NINT, "float": token.FLOAT, "float16": token.FLOAT16,
	"float32": token.FLOAT32, "float64": token.FLOAT64, "tstr": token.TSTR, "text": token.TEXT, "bytes": token.BYTES,
	"bstr": token.BSTR, "bool": token.BOOL, "true": token.TRUE, "false": token.FALSE, "nil": token.NIL, "null": token.NULL, "any": token.ANY,
	".size": token.SIZE, ".bits": token.BITS, ".regexp": token.REGEXP, ".lt": token.LT, ".le": token.LE, ".gt": token.GT, ".ge": token.GE, ".eq": token.EQ, ".ne": token.NE,
	"(": token.LPAREN, ")": token.RPAREN, "[": token.LBRACK, "]": token.RBRACK, "{": token.LBRACE, "}": token.RBRACE,
	",": token.COMMA, ":": token.COLON, "=": token.ASSIGN, "=>": token.ARROW_MAP, "?": token.OPTIONAL, "/": token.TYPE_CHOICE, "//": token.GROUP_CHOICE,
	"/=": token.TYPE_CHOICE_ASSIGN, "//=": token.GROUP_CHOICE_ASSIGN, "&": token.AMPERSAND, "#": token.HASH, "..": token.INCLUSIVE_BOUND, "...": token.EXCLUSIVE_BOUND,
	"*": token.ZERO_OR_MORE, "+": token.ONE_OR_MORE, "~": token.UNWRAP,
}

func (r *renderer) k(s string) int {
	k, ok := kw[s]
	if !ok {
		bug("no keyword %q", s)
	}
	return r.tok(k, s, s)
}

func (r *renderer) ident(s string) int { return r.tok(token.IDENT, s, s) }
func (r *renderer) num(s string) int {
	k := token.INT
	if strings.Contains(s, ".") {
		k = token.FLOAT
	}
	return r.tok(k, s, s)
}
func (r *renderer) text(s string) int { return r.tok(token.TEXT_LITERAL, s, `"`+s+`"`) }
func (r *renderer) comment(s string) {
	r.tok(token.COMMENT, s, ";"+s)
	r.raw("\n")
}

var words = []string{"alpha", "beta", "item", "node", "user", "point", "tree", "name", "value", "size", "list", "color", "edge", "header", "body", "field", "key", "left", "right", "zone", "id", "x"}

func camel(s string) string {
	out := ""
	for _, p := range strings.FieldsFunc(s, func(r rune) bool { return r == '-' || r == '_' || r == '.' }) {
		out += strings.ToUpper(p[:1]) + p[1:]
	}
	return out
}

type cgen struct {
	r       *renderer
	ch      *verifsim.Chooser
	used    map[string]bool
	names   []string // rules defined so far
	ahead   []string // rules to be defined later (forward references)
	full    bool     // whole language rather than the code generator's subset
	noFwd   bool
	depth   int
	budget  int
	cur     *RuleInfo
	comment bool
}

func (g *cgen) fresh() string {
	for i := 0; ; i++ {
		n := words[g.ch.N(len(words))]
		if g.ch.P(1, 3) {
			w := words[g.ch.N(len(words))]
			switch g.ch.Weighted(8, 8, 2, 3) {
			case 0:
				n += "-" + w
			case 1:
				n += "_" + w
			case 2:
				n += "." + w
			case 3: // camelCase
				n += strings.ToUpper(w[:1]) + w[1:]
			}
		} else if g.ch.P(1, 6) { // other case, perhaps of a name in use
			n = strings.ToUpper(n[:1]) + n[1:]
		}
		if i > 4 || g.ch.P(1, 12) {
			n += fmt.Sprintf("%d", len(g.used)+1)
		}
		if g.ch.P(1, 150) {
			n += "-" + strings.Repeat("o", 1+g.ch.LogN(5000))
		}
		if !g.used[n] && kw[n] == 0 {
			g.used[n] = true
			return n
		}
	}
}

// pretty-printed Go lines of one value
type gotype struct {
	lines []string // first line continues the declaration
}

func one(s string) gotype { return gotype{[]string{s}} }

var commentTexts = []string{"", " note", " a longer comment: x = (y)", " \"quoted\" text", " é ü 漢", ";;", " tab\tand ] ) }"}

// cmt draws the text of a comment.
func (g *cgen) cmt() string {
	switch g.ch.Weighted(12, 3, 1) {
	case 1:
		return " " + prose(g.ch, 1+g.ch.LogN(60), true)
	case 2:
		if g.ch.P(1, 12) {
			return prose(g.ch, 1+g.ch.LogN(9000), true)
		}
		return strings.Repeat("-", 1+g.ch.LogN(300))
	}
	return commentTexts[g.ch.N(len(commentTexts))]
}

// oddRunes are characters of all encoded lengths, among them those a decoder
// could mistake for damage, white space or a line end.
var oddRunes = []rune{0xFFFD, 0xFEFF, 0xA0, 0x85, 0x2028, 0x2029, 0x7F, 0x01, 0x0B, 0x0C, 0xE9, 0x20AC, 0x6F22, 0x1F600, 0x10FFFF, 0xD7FF, 0xE000, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x301}

// prose draws n characters for a comment or text literal.
func prose(ch *verifsim.Chooser, n int, comment bool) string {
	var sb strings.Builder
	odd := ch.N(3)
	for i := 0; i < n; i++ {
		switch {
		case odd > 0 && ch.P(1, 2):
			sb.WriteRune(oddRunes[ch.N(len(oddRunes))])
		default:
			b := byte(0x20 + ch.N(0x5f))
			if !comment && (b == '"' || b == '\\' || b == '\'') || b == '\r' {
				b = '_'
			}
			sb.WriteByte(b)
		}
	}
	return sb.String()
}

// value emits a type expression and returns the Go it is generated as.
func (g *cgen) value() gotype {
	g.budget--
	w := []int{6, 3, 3, 2, 2, 2, 2, 3, 3, 3}
	if g.depth >= 3 || g.budget <= 0 {
		w[7], w[8] = 0, 0
	}
	if g.full && g.budget > 0 && g.ch.P(1, 2) {
		return g.fullValue()
	}
	switch g.ch.Weighted(w...) {
	case 0:
		t := []string{"tstr", "text"}[g.ch.N(2)]
		g.r.k(t)
		return one("string")
	case 1:
		g.r.k("int")
		return one("int")
	case 2:
		g.r.k("uint")
		return one("uint")
	case 3:
		g.r.k("bool")
		return one("bool")
	case 4:
		g.r.k("bytes")
		return one("[]byte")
	case 5:
		g.r.k([]string{"null", "nil"}[g.ch.N(2)])
		return one("nil")
	case 6:
		t := []string{"uint", "tstr"}[g.ch.N(2)]
		g.r.k(t)
		g.r.k(".size")
		g.r.num(fmt.Sprint(1 + g.ch.N(64)))
		g.cur.HasSize = true
		return one(map[string]string{"uint": "uint", "tstr": "string"}[t])
	case 7:
		return g.group("(", ")")
	case 8:
		return g.group("[", "]")
	default:
		return g.ref()
	}
}

func (g *cgen) ref() gotype {
	pool := append(append([]string(nil), g.names...), g.ahead...)
	if g.noFwd {
		pool = g.names
	}
	if len(pool) == 0 {
		g.r.k("int")
		return one("int")
	}
	n := pool[g.ch.N(len(pool))]
	g.r.ident(n)
	g.cur.Refs = append(g.cur.Refs, n)
	return one(camel(n))
}

func (g *cgen) group(open, close string) gotype {
	g.depth++
	defer func() { g.depth-- }()
	g.r.k(open)
	var fields []string
	if open == "[" {
		fields = append(fields, "_ struct{} `cbor:\",toarray\"`")
	}
	n := g.ch.N(4)
	if g.budget <= 0 {
		n = 1
	}
	multi := g.ch.P(1, 2)
	used := map[string]bool{}
	noted := false
	for i := 0; i < n; i++ {
		if multi {
			g.r.newline()
			g.r.raw("    ")
			if g.comment && g.ch.P(1, 6) {
				g.r.comment(g.cmt())
				g.r.raw("    ")
			}
		}
		var fl []string
		kind := g.ch.Weighted(6, 2, 2, 1)
		if noted && kind == 3 { // the parser takes `, ; note` and `*` for an infix
			kind = 0
		}
		noted = false
		key := ""
		for {
			key = words[g.ch.N(len(words))]
			if !used[key] {
				break
			}
			key = fmt.Sprintf("k%d", i)
			break
		}
		used[key] = true
		entry := func() []string {
			g.r.ident(key)
			g.r.k(":")
			t := g.value()
			out := append([]string(nil), t.lines...)
			out[0] = camel(key) + " " + out[0]
			return out
		}
		switch kind {
		case 0:
			fl = entry()
		case 1:
			g.r.k("?")
			fl = entry()
			fl[len(fl)-1] += " `cbor:\",omitempty\"`"
		case 2:
			if len(g.names)+len(g.ahead) == 0 || g.noFwd && len(g.names) == 0 {
				fl = entry()
				break
			}
			fl = g.ref().lines
		case 3:
			g.r.k([]string{"*", "+"}[g.ch.N(2)])
			if g.ch.P(1, 3) {
				fl = g.ref().lines
			} else {
				t := []string{"int", "tstr", "uint", "bool"}[g.ch.N(4)]
				g.r.k(t)
				fl = []string{map[string]string{"int": "int", "tstr": "string", "uint": "uint", "bool": "bool"}[t]}
			}
			fl[0] = "[]" + fl[0]
		}
		fields = append(fields, fl...)
		if i < n-1 || g.ch.P(1, 4) {
			g.r.k(",")
			if g.comment && multi && i < n-1 && g.ch.P(1, 6) {
				g.r.comment(g.cmt())
				noted = true
			}
		}
	}
	if multi {
		g.r.newline()
	}
	g.r.k(close)
	if len(fields) == 0 {
		return gotype{[]string{"struct {", "}"}}
	}
	out := []string{"struct {"}
	out = append(out, fields...)
	out = append(out, "}")
	return gotype{out}
}

// fullValue emits constructs the parser accepts but the generator does not.
func (g *cgen) fullValue() gotype {
	none := one("")
	switch g.ch.N(16) {
	case 0:
		g.r.k([]string{"float", "float16", "float32", "float64", "bstr", "nint"}[g.ch.N(6)])
	case 1:
		g.r.num(fmt.Sprint(g.ch.N(1000)))
	case 2:
		g.r.text(g.str())
	case 3:
		a := g.ch.N(100)
		g.r.num(fmt.Sprint(a))
		g.r.k([]string{"..", "..."}[g.ch.N(2)])
		g.r.num(fmt.Sprint(a + g.ch.N(1000)))
	case 4:
		g.r.num(fmt.Sprintf("%d.%d", g.ch.N(100), g.ch.N(100)))
	case 5:
		g.r.k("tstr")
		g.r.k(".regexp")
		g.r.text([]string{"[a-z]+", "^x.*y$", "a|b"}[g.ch.N(3)])
	case 6:
		g.r.k([]string{"uint", "int", "float"}[g.ch.N(3)])
		g.r.k([]string{".lt", ".le", ".gt", ".ge", ".ne"}[g.ch.N(5)])
		g.r.num(fmt.Sprint(g.ch.N(100)))
	case 7:
		g.r.k("#")
		g.r.num(fmt.Sprintf("6.%d", g.ch.N(100)))
		g.r.k("(")
		g.r.k([]string{"tstr", "int", "bytes"}[g.ch.N(3)])
		g.r.k(")")
	case 8, 9:
		g.depth++
		g.choice()
		g.r.k("/")
		g.choice()
		g.depth--
	case 10, 11:
		if g.depth > 3 || g.budget <= 0 {
			g.r.k("int")
			return none
		}
		g.mapv()
	case 12:
		g.r.k("&")
		g.r.k("(")
		n := 1 + g.ch.N(3)
		for i := 0; i < n; i++ {
			g.r.ident(fmt.Sprintf("e%d", i))
			g.r.k(":")
			g.r.num(fmt.Sprint(i))
			if i < n-1 {
				g.r.k(",")
			}
		}
		g.r.k(")")
	case 13:
		g.r.k([]string{"true", "false"}[g.ch.N(2)])
	case 14:
		g.r.ident([]string{"$", "$$"}[g.ch.N(2)] + words[g.ch.N(len(words))])
	case 15:
		h := []string{"0x1f", "0b101", "0o17"}[g.ch.N(3)]
		g.r.tok(token.INT, h, h)
	}
	return none
}

func (g *cgen) str() string {
	if g.ch.P(1, 200) {
		return prose(g.ch, g.ch.LogN(6000), false)
	}
	if g.ch.P(1, 4) {
		return prose(g.ch, g.ch.LogN(40), false)
	}
	return []string{"hello", "", "a b", "; not a comment", "(", "x=y", "ünï", "{}[]", "漢字", "."}[g.ch.N(10)]
}

func (g *cgen) choice() {
	switch g.ch.N(5) {
	case 0:
		g.r.k([]string{"int", "tstr", "bool", "null"}[g.ch.N(4)])
	case 1:
		g.r.text(g.str())
	case 2:
		g.r.num(fmt.Sprint(g.ch.N(50)))
	case 3:
		g.ref()
	case 4:
		g.r.k("uint")
	}
}

func (g *cgen) mapv() {
	g.depth++
	defer func() { g.depth-- }()
	g.r.k("{")
	n := g.ch.N(4)
	multi := g.ch.P(1, 2)
	for i := 0; i < n; i++ {
		if multi {
			g.r.newline()
			g.r.raw("  ")
		}
		switch g.ch.Weighted(4, 1, 1, 1) {
		case 1:
			g.r.k("?")
		case 2:
			g.r.k([]string{"*", "+"}[g.ch.N(2)])
		}
		if g.ch.P(1, 2) {
			g.r.ident(fmt.Sprintf("%s%d", words[g.ch.N(len(words))], i))
			g.r.k(":")
		} else {
			// a name before => is a reference
			if len(g.names) > 0 && g.ch.P(1, 3) {
				n := g.names[g.ch.N(len(g.names))]
				g.r.ident(n)
				g.cur.Refs = append(g.cur.Refs, n)
			} else {
				g.r.num(fmt.Sprint(g.ch.N(30)))
			}
			g.r.k("=>")
		}
		if g.budget > 0 && g.ch.P(1, 3) {
			g.value()
		} else {
			g.choice()
		}
		if i < n-1 {
			g.r.k(",")
		}
	}
	if multi {
		g.r.newline()
	}
	g.r.k("}")
}

// genOpts selects what a source may contain.
type genOpts struct {
	full     bool // whole language
	noFwd    bool // no forward references
	rules    int  // number of rules, 0 = draw
	comments bool
	names    []string // names defined elsewhere
	must     []string // names of the first rules
	extreme  bool     // far down, far to the right, deeply nested or wide
}

func genSource(ch *verifsim.Chooser, o genOpts) *Source {
	r := &renderer{ch: ch, style: ch.N(3)}
	g := &cgen{r: r, ch: ch, used: map[string]bool{}, full: o.full, noFwd: o.noFwd, comment: o.comments}
	n := o.rules
	if n == 0 {
		n = 1 + ch.LogN(9)
	}
	for _, x := range o.names {
		g.used[x] = true
	}
	g.names = append(g.names, o.names...)
	var plan []string
	for i := 0; i < n; i++ {
		if i < len(o.must) {
			g.used[o.must[i]] = true
			plan = append(plan, o.must[i])
			continue
		}
		plan = append(plan, g.fresh())
	}
	ext := 0
	if o.extreme {
		ext = 1 + ch.N(6)
	}
	switch ext {
	case 1: // far down
		r.raw(strings.Repeat([]string{"\n", "\r\n", " \n"}[ch.N(3)], 1<<ch.N(17)+ch.N(200)))
	case 2: // far to the right
		r.raw(strings.Repeat([]string{" ", "\t", "\r"}[ch.N(3)], 1<<ch.N(17)+ch.N(200)))
	}
	if o.comments && ch.P(1, 4) {
		r.comment(g.cmt())
	}
	src := &Source{}
	if ext == 3 || ext == 4 {
		g.nest("nest", ext == 4, src)
	}
	for i, name := range plan {
		g.ahead = plan[i+1:]
		g.budget = 14
		ri := RuleInfo{Name: name, Assign: "="}
		g.cur = &ri
		ri.First = r.ident(name)
		r.k("=")
		isLit := false
		var t gotype
		if !o.full && ch.P(1, 10) {
			isLit = true
			v := fmt.Sprint(ch.N(1000))
			switch ch.N(3) {
			case 0:
				r.num(v)
			case 1:
				v = []string{"true", "false"}[ch.N(2)]
				r.k(v)
			case 2:
				v = fmt.Sprintf("%d.5", ch.N(100))
				r.num(v)
			}
			t = one(v)
		} else {
			t = g.value()
		}
		ri.IsVar = isLit
		if isLit {
			ri.Decl = []string{"var " + camel(name) + " = " + t.lines[0]}
		} else {
			ri.Decl = append([]string{"type " + camel(name) + " " + t.lines[0]}, t.lines[1:]...)
		}
		if o.comments && ch.P(1, 6) {
			r.comment(g.cmt())
		}
		ri.Last = len(r.toks) - 1
		ri.EndOff = r.sb.Len()
		src.Rules = append(src.Rules, ri)
		if i < n-1 || ch.P(3, 4) {
			r.newline()
		}
		if o.comments && i < n-1 && ch.P(1, 8) {
			r.comment(g.cmt())
		}
		g.names = append(g.names, name)
	}
	if ext == 5 || ext == 6 {
		if r.last != '\n' {
			r.raw("\n")
		}
		g.nest("nest", ext == 6, src)
	}
	src.Text = r.sb.String()
	src.Toks = r.toks
	return src
}

// nest emits a rule that is nested deeply or has a great many members.
func (g *cgen) nest(name string, wide bool, src *Source) {
	r, ch := g.r, g.ch
	ri := RuleInfo{Name: name}
	g.cur = &ri
	ri.First = r.ident(name)
	r.k("=")
	if wide {
		n := 60 + ch.LogN(3000)
		switch kind := ch.N(3); kind {
		case 0, 1:
			open, shut := "[", "]"
			if kind == 1 {
				open, shut = "(", ")"
			}
			r.k(open)
			for i := 0; i < n; i++ {
				r.ident(fmt.Sprintf("m%d", i))
				r.k(":")
				r.k("int")
				r.k(",")
				if ch.P(1, 4) {
					r.newline()
				}
			}
			r.ident("last")
			r.k(":")
			r.k("tstr")
			r.k(shut)
		case 2:
			for i := 0; i < n; i++ {
				r.num(fmt.Sprint(i))
				r.k("/")
			}
			r.k("tstr")
		}
	} else {
		n := 20 + ch.LogN(2000)
		shuts := ""
		for i := 0; i < n; i++ {
			j := ch.N(3)
			r.k([]string{"[", "(", "{"}[j])
			shuts += []string{"]", ")", "}"}[j]
			if ch.P(1, 3) {
				r.ident("head")
				r.k(":")
				r.k("int")
				r.k(",")
			}
			r.ident("a")
			r.k(":")
		}
		r.k("int")
		for i := n - 1; i >= 0; i-- {
			if ch.P(1, 4) {
				r.k(",")
				r.ident("tail")
				r.k(":")
				r.k("int")
			}
			r.k(shuts[i : i+1])
		}
	}
	ri.Last = len(r.toks) - 1
	ri.EndOff = r.sb.Len()
	src.Rules = append(src.Rules, ri)
	r.newline()
}

// ---- damage ----

func oneOf(ch *verifsim.Chooser, s string) byte { return s[ch.N(len(s))] }

var oddTokens = []string{".bits", ".size", ".regexp", ".lt", ".eq", ".within", ".and", ".default", ".cbor", "..", "...", "=", "/=", "//=", "=>", ":", ",", "/", "//", "?", "*", "+", "~", "&", "#", "#6", "#6.1", "#1.2.3", "(", ")", "[", "]", "{", "}", "1", "-1", "18446744073709551616", "9223372036854775808", "1.5", "1e400", "0x", "0xg", "0b2", "1*2", "0*", "*5", "\"t\"", "\"", "'", "h'00'", "$x", "$$x", "$", "@", "x", "int", "tstr", "bytes", "any", "true", "nil", ";", "; c\n", "\\", "|", "^", "x-", "-x", "x.", "a.b", "<", ">", "\u00e9"}

// rawTokens finds the pieces of a text a reader would take for tokens.
func rawTokens(text string) (out [][2]int) {
	for i := 0; i < len(text); {
		j := i + 1
		switch b := text[i]; {
		case b == ' ' || b == '\n' || b == '\t' || b == '\r':
			i++
			continue
		case wordByte(b):
			for j < len(text) && wordByte(text[j]) {
				j++
			}
		case b == '"':
			for j < len(text) && text[j] != '"' && text[j] != '\n' {
				j++
			}
			if j < len(text) {
				j++
			}
		case b == ';':
			for j < len(text) && text[j] != '\n' {
				j++
			}
		}
		out = append(out, [2]int{i, j})
		i = j
	}
	return
}

// damage applies one storage or transfer damage to text. It returns the new
// text and the first offset at which it may differ.
func damage(ch *verifsim.Chooser, text, other string) (string, int, string) {
	n := len(text)
	if n == 0 {
		return text, 0, "none"
	}
	at := ch.N(n)
	switch ch.N(18) {
	case 16, 17:
		return breakStructure(ch, text)
	case 12: // a block inside a comment or quotation overwritten
		var in [][2]int
		for _, t := range rawTokens(text) {
			if (text[t[0]] == ';' || text[t[0]] == '"') && t[1]-t[0] > 3 {
				in = append(in, t)
			}
		}
		if len(in) == 0 {
			return text, 0, "none"
		}
		t := in[ch.N(len(in))]
		o := t[0] + 1 + ch.N(t[1]-t[0]-2)
		m := 1 + ch.LogN(t[1]-1-o)
		if o+m > t[1]-1 {
			m = t[1] - 1 - o
		}
		rep := m
		if ch.P(1, 3) {
			rep = 1 + ch.LogN(3000)
		}
		b := []string{"\xff", "\xc3", "\x80", "\xed\xa0\x80", "\xf0\x9f", "\x00", "\xc0\xaf", "\xf5\x80\x80\x80"}[ch.N(8)]
		return text[:o] + strings.Repeat(b, rep/len(b)+1) + text[o+m:], o, "block-in-token-overwritten"
	case 13: // two blocks exchanged
		k := 1 + ch.LogN(n)
		if at+2*k > n {
			k = (n - at) / 2
		}
		return text[:at] + text[at+k:at+2*k] + text[at:at+k] + text[at+2*k:], at, "blocks-exchanged"
	case 14: // recoded on the way
		b := []byte(text)
		switch ch.N(3) {
		case 0: // 7-bit line
			for i := range b {
				if b[i] >= 0x80 && i >= at {
					b[i] &= 0x7f
				}
			}
			return string(b), at, "seven-bit"
		case 1: // to Latin-1
			out := append([]byte(nil), b[:at]...)
			for _, r := range string(b[at:]) {
				if r < 0x100 {
					out = append(out, byte(r))
				} else {
					out = append(out, '?')
				}
			}
			return string(out), at, "latin-1"
		default: // UTF-8 twice
			out := append([]byte(nil), b[:at]...)
			for _, x := range b[at:] {
				out = utf8.AppendRune(out, rune(x))
			}
			return string(out), at, "utf-8-twice"
		}
	case 15: // line ends changed
		var sb strings.Builder
		nl := []string{"\r\n", "\r", " ", "\n\n"}[ch.N(4)]
		sb.WriteString(text[:at])
		sb.WriteString(strings.ReplaceAll(text[at:], "\n", nl))
		return sb.String(), at, "line-ends-changed"
	case 9, 10: // a token of the text replaced by another, repeated or lost
		ts := rawTokens(text)
		if len(ts) == 0 {
			return text, 0, "none"
		}
		t := ts[ch.N(len(ts))]
		with, what := "", "token-lost"
		switch ch.N(4) {
		case 1:
			with, what = text[t[0]:t[1]]+" "+text[t[0]:t[1]], "token-repeated"
		case 2:
			o := ts[ch.N(len(ts))]
			with, what = text[o[0]:o[1]], "token-of-other-place"
		case 3:
			with, what = oddTokens[ch.N(len(oddTokens))], "token-overwritten"
		}
		if ch.P(1, 4) {
			with = " " + with + " "
		}
		return text[:t[0]] + with + text[t[1]:], t[0], what
	case 11: // a line lost or repeated
		ls := strings.SplitAfter(text, "\n")
		i := ch.N(len(ls))
		off := len(strings.Join(ls[:i], ""))
		if ch.P(1, 2) {
			return text[:off] + text[off+len(ls[i]):], off, "line-lost"
		}
		return text[:off] + ls[i] + text[off:], off + len(ls[i]), "line-repeated"
	case 0: // cut off
		return text[:at], at, "truncate"
	case 1: // one byte changed
		b := []byte(text)
		b[at] ^= byte(1 << ch.N(8))
		return string(b), at, "bit-flip"
	case 2: // one byte replaced by a structural or odd one
		b := []byte(text)
		b[at] = oneOf(ch, "()[]{}\";.=/,:#&~*+?<>-'$@_0x\x00\xff\x80\xc3\n\r |\\")
		return string(b), at, "byte-overwrite"
	case 3: // bytes lost
		m := 1 + ch.LogN(n-at)
		return text[:at] + text[at+m:], at, "bytes-lost"
	case 4: // bytes repeated
		m := 1 + ch.LogN(n-at)
		return text[:at+m] + text[at:], at + m, "bytes-repeated"
	case 5: // zeroed block
		m := 1 + ch.LogN(n-at)
		return text[:at] + strings.Repeat("\x00", m) + text[at+m:], at, "block-zeroed"
	case 6: // block of another file
		if other == "" {
			other = text
		}
		o := ch.N(len(other))
		m := 1 + ch.LogN(len(other)-o)
		k := m
		if at+k > n {
			k = n - at
		}
		return text[:at] + other[o:o+m] + text[at+k:], at, "block-of-other-file"
	case 7: // bytes inserted
		m := 1 + ch.N(3)
		ins := ""
		for i := 0; i < m; i++ {
			ins += string([]byte{oneOf(ch, "()[]{}\";.=/,\x00\xff\xed\xa0\x80\xf0\x9f")})
		}
		return text[:at] + ins + text[at:], at, "bytes-inserted"
	default: // random garbage block
		m := 1 + ch.LogN(64)
		b := []byte(text)
		for i := at; i < n && i < at+m; i++ {
			b[i] = byte(ch.N(256))
		}
		return string(b), at, "garbage-block"
	}
}

// breakStructure damages a bracket or a quotation mark, which leaves texts
// that are nearly well formed.
func breakStructure(ch *verifsim.Chooser, text string) (string, int, string) {
	var marks, toks [][2]int
	for _, t := range rawTokens(text) {
		if text[t[0]] == ';' {
			continue
		}
		toks = append(toks, t)
		if strings.IndexByte("()[]{}\"", text[t[0]]) >= 0 {
			marks = append(marks, t)
		}
	}
	if len(toks) == 0 {
		return text, 0, "none"
	}
	if len(marks) == 0 || ch.P(1, 3) { // one comes in somewhere between two tokens
		t := toks[ch.N(len(toks))]
		b := string(oneOf(ch, "()[]{}\""))
		o := t[ch.N(2)]
		if ch.P(1, 2) {
			b = " " + b + " "
		}
		return text[:o] + b + text[o:], o, "mark-inserted"
	}
	t := marks[ch.N(len(marks))]
	o := t[0]
	if text[o] == '"' && t[1]-o > 1 && ch.P(1, 2) {
		o = t[1] - 1
	}
	switch ch.N(4) {
	case 0: // lost
		return text[:o] + text[o+1:], o, "mark-lost"
	case 1: // twice
		return text[:o+1] + text[o:], o + 1, "mark-repeated"
	case 2: // another one
		return text[:o] + string(oneOf(ch, "()[]{}\"")) + text[o+1:], o, "mark-overwritten"
	default: // exchanged with another one
		u := marks[ch.N(len(marks))][0]
		if u > o {
			u, o = o, u
		}
		b := []byte(text)
		b[u], b[o] = b[o], b[u]
		return string(b), u, "marks-exchanged"
	}
}

// structural decides, for texts where it is beyond doubt, whether text has
// damage that must be diagnosed: an unterminated quotation, a bracket left
// open, closed by the wrong kind or never opened, or invalid UTF-8.
func structural(text string) (bad bool, why string) {
	if !utf8.ValidString(text) {
		return true, "invalid UTF-8"
	}
	var st []byte
	for i := 0; i < len(text); i++ {
		switch c := text[i]; c {
		case ';':
			for i < len(text) && text[i] != '\n' {
				i++
			}
		case '"':
			j := i + 1
			for j < len(text) && text[j] != '"' && text[j] != '\n' {
				j++
			}
			if j >= len(text) || text[j] == '\n' {
				return true, "unterminated quotation"
			}
			i = j
		case '(', '[', '{':
			st = append(st, c)
		case ')', ']', '}':
			want := map[byte]byte{')': '(', ']': '[', '}': '{'}[c]
			if len(st) == 0 {
				return true, "bracket closed without an opening one"
			}
			if st[len(st)-1] != want {
				return true, "bracket closed by the wrong kind"
			}
			st = st[:len(st)-1]
		}
	}
	if len(st) > 0 {
		return true, "bracket never closed"
	}
	return false, ""
}
