package main

// A model of rules: tokens, rules and their meaning, written from the manual.

import (
	"errors"
	"fmt"
	"net"
	"os"
	"strings"

	"github.com/siebenmann/smtpd"
)

// ---- tokens

type hTok struct {
	kind string // word, file, value (a plain word), str (a quoted string), one of ( ) , ; eol eof error
	val  string
	pos  int
}

var hKeywords = map[string]bool{}

func init() {
	for _, s := range strings.Fields(`include @connect @helo @from @to @data @message accept reject stall set-with or not
		all from to helo host from-has to-has helo-has tls dns ip dnsbl source dbl with message note savedir tls-opt make-yakker
		ehlo none bogus nodots bareip properip myip remip otherip nodns inconsistent noforward unqualified route quoted noat
		garbage resolves baddom unknown bad on off good exists any`) {
		hKeywords[s] = true
	}
}

// specLex splits a rules text into tokens. It ends with eof or error.
func specLex(s string) []hTok {
	var out []hTok
	i := 0
	add := func(k, v string, p int) { out = append(out, hTok{k, v, p}) }
	start := true // at the start of a line
	for {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t') {
			i++
		}
		if i >= len(s) {
			add("eof", "", i)
			return out
		}
		c := s[i]
		if strings.HasPrefix(s[i:], "\\\n") {
			i += 2
			continue
		}
		if start && c == '#' {
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		}
		if c == '\n' {
			if !start {
				add("eol", "\n", i)
			}
			start = true
			i++
			continue
		}
		start = false
		switch c {
		case '(', ')', ';':
			add(string(c), string(c), i)
			i++
		case ',':
			add(",", ",", i)
			i++
			if i >= len(s) || s[i] == ' ' || s[i] == '\t' || s[i] == '\n' {
				add("error", "", i)
				return out
			}
		case '"':
			v := ""
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' && j+1 < len(s) && (s[j+1] == '"' || s[j+1] == '\\') {
					j++
				}
				v += s[j : j+1]
				j++
			}
			if j >= len(s) {
				add("error", "", i)
				return out
			}
			add("str", v, i)
			i = j + 1
		default:
			j := i
			for j < len(s) && strings.IndexByte("(),;\n \t", s[j]) < 0 {
				j++
			}
			w := s[i:j]
			switch {
			case hKeywords[w]:
				add("word", w, i)
			case strings.HasPrefix(w, "/") || strings.HasPrefix(w, "./"):
				add("file", w, i)
			case w == "file:":
				add("error", "", i)
				return out
			case strings.HasPrefix(w, "file:"):
				add("file", w, i)
			default:
				add("value", w, i)
			}
			i = j
		}
	}
}

// ---- rules

type hExpr struct {
	op   string
	kids []*hExpr
	arg  string
	opts []string
	on   bool
}

type hClause struct {
	e     *hExpr
	withs map[string]string
}

type hRule struct {
	phase   Phase // explicit phase
	act     Action
	clauses []hClause
	req     Phase
}

var hPhases = map[string]Phase{"@connect": pConnect, "@helo": pHelo, "@from": pMfrom, "@to": pRto, "@data": pData, "@message": pMessage}
var hActions = map[string]Action{"accept": aAccept, "reject": aReject, "stall": aStall, "set-with": aNoresult}

var hOptNames = map[string]string{
	"from-has": "unqualified route quoted noat garbage bad resolves baddom unknown",
	"to-has":   "unqualified route quoted noat garbage bad resolves baddom unknown",
	"helo-has": "helo ehlo none nodots bareip properip myip remip otherip ip bogus",
	"dns":      "nodns inconsistent noforward good exists",
	"dbl":      "host ehlo helo from any",
}

func hIsOpt(op, name string) bool {
	for _, s := range strings.Fields(hOptNames[op]) {
		if s == name {
			return true
		}
	}
	return false
}

type hParser struct {
	t []hTok
	i int
	d int
}

var errBad = errors.New("error")

func (p *hParser) cur() hTok { return p.t[p.i] }
func (p *hParser) kw() string {
	if p.t[p.i].kind == "word" {
		return p.t[p.i].val
	}
	return ""
}

// next moves on; an error token is never passed.
func (p *hParser) next() {
	if p.i < len(p.t)-1 {
		p.i++
	}
}

func (p *hParser) arg() (string, error) {
	switch p.cur().kind {
	case "eof", "eol", "error":
		return "", errBad
	}
	v := p.cur().val
	p.next()
	return v, nil
}

func (p *hParser) endOfRule() bool {
	k := p.cur().kind
	return k == "eol" || k == "eof" || k == ";"
}

func (p *hParser) opts(op string) ([]string, error) {
	var out []string
	for {
		w := p.kw()
		if w == "" || !hIsOpt(op, w) {
			return nil, errBad
		}
		out = append(out, w)
		p.next()
		if p.cur().kind != "," {
			return out, nil
		}
		p.next()
	}
}

func (p *hParser) domain() (string, error) {
	k := p.cur().kind
	if k != "value" && k != "str" {
		return "", errBad
	}
	v := p.cur().val
	if strings.IndexByte(v, '.') < 0 {
		return "", errBad
	}
	if !strings.HasSuffix(v, ".") {
		v += "."
	}
	p.next()
	return v, nil
}

// term is nil without an error if there is no term here.
func (p *hParser) term() (*hExpr, error) {
	if p.cur().kind == "(" {
		p.next()
		e, err := p.seq()
		if err != nil || e == nil || p.cur().kind != ")" {
			return nil, errBad
		}
		p.next()
		return e, nil
	}
	w := p.kw()
	switch w {
	case "not":
		p.next()
		e, err := p.term()
		if err != nil || e == nil {
			return nil, errBad
		}
		return &hExpr{op: "not", kids: []*hExpr{e}}, nil
	case "all":
		p.next()
		return &hExpr{op: "all"}, nil
	case "from", "to", "helo", "ehlo", "host", "source":
		p.next()
		a, err := p.arg()
		if w == "ehlo" {
			w = "helo"
		}
		return &hExpr{op: w, arg: a}, err
	case "ip":
		p.next()
		k, v := p.cur().kind, p.cur().val
		switch k {
		case "file":
		case "value", "str":
			_, _, err := net.ParseCIDR(v)
			if err != nil && net.ParseIP(v) == nil {
				return nil, errBad
			}
		default:
			return nil, errBad
		}
		p.next()
		return &hExpr{op: "ip", arg: v}, nil
	case "dnsbl":
		p.next()
		d, err := p.domain()
		return &hExpr{op: "dnsbl", arg: d}, err
	case "tls":
		p.next()
		switch p.kw() {
		case "on", "off":
			on := p.kw() == "on"
			p.next()
			return &hExpr{op: "tls", on: on}, nil
		}
		return nil, errBad
	case "from-has", "to-has", "helo-has", "dns":
		p.next()
		o, err := p.opts(w)
		return &hExpr{op: w, opts: o}, err
	case "dbl":
		p.next()
		o, err := p.opts(w)
		if err != nil {
			return nil, err
		}
		d, err := p.domain()
		return &hExpr{op: w, opts: o, arg: d}, err
	}
	return nil, nil
}

func (p *hParser) or() (*hExpr, error) {
	e, err := p.term()
	if err != nil {
		return nil, err
	}
	if p.kw() != "or" {
		return e, nil
	}
	if e == nil {
		return nil, errBad
	}
	p.next()
	r, err := p.or()
	if err != nil || r == nil {
		return nil, errBad
	}
	return &hExpr{op: "or", kids: []*hExpr{e, r}}, nil
}

func (p *hParser) seq() (*hExpr, error) {
	var l []*hExpr
	for {
		e, err := p.or()
		if err != nil {
			return nil, err
		}
		if e == nil {
			break
		}
		l = append(l, e)
	}
	if len(l) == 0 {
		return nil, nil
	}
	return &hExpr{op: "and", kids: l}, nil
}

func (p *hParser) withs() (map[string]string, error) {
	m := map[string]string{}
	if p.kw() != "with" {
		return m, nil
	}
	p.next()
	for {
		w := p.kw()
		old, seen := m[w]
		switch w {
		case "message", "note", "savedir":
			// a repeated option with an empty value goes unnoticed
			if seen && old != "" {
				return nil, errBad
			}
			p.next()
			a, err := p.arg()
			if err != nil || w == "note" && strings.Contains(a, "\n") {
				return nil, errBad
			}
			m[w] = a
		case "tls-opt":
			if seen {
				return nil, errBad
			}
			p.next()
			a, err := p.arg()
			if err != nil || a != "off" && a != "no-client" {
				return nil, errBad
			}
			m[w] = a
		case "make-yakker":
			if seen {
				return nil, errBad
			}
			p.next()
			m[w] = ""
		default:
			if len(m) == 0 || !p.endOfRule() {
				return nil, errBad
			}
			return m, nil
		}
	}
}

func (p *hParser) rule() (*hRule, error) {
	r := &hRule{}
	if ph, ok := hPhases[p.kw()]; ok {
		r.phase = ph
		p.next()
	}
	a, ok := hActions[p.kw()]
	if !ok {
		return nil, errBad
	}
	r.act = a
	p.next()
	for {
		e, err := p.seq()
		if err != nil {
			return nil, err
		}
		w, err := p.withs()
		if err != nil {
			return nil, err
		}
		if !p.endOfRule() || e == nil || r.act == aNoresult && len(w) == 0 {
			return nil, errBad
		}
		r.clauses = append(r.clauses, hClause{e, w})
		if q := hNeeds(e); q > r.req {
			r.req = q
		}
		if p.cur().kind != ";" {
			break
		}
		p.next()
		if p.cur().kind == "eol" {
			p.next()
		}
	}
	if r.phase != pAny && r.phase < r.req {
		return nil, errBad
	}
	p.next()
	return r, nil
}

// hNeeds is the earliest phase in which a condition can be judged.
func hNeeds(e *hExpr) Phase {
	ph := pAny
	up := func(q Phase) {
		if q > ph {
			ph = q
		}
	}
	for _, k := range e.kids {
		up(hNeeds(k))
	}
	switch e.op {
	case "helo", "helo-has":
		up(pHelo)
	case "from", "from-has", "source", "tls":
		up(pMfrom)
	case "to", "to-has":
		up(pRto)
	case "dbl":
		for _, o := range e.opts {
			switch o {
			case "ehlo", "helo":
				up(pHelo)
			case "from", "any":
				up(pMfrom)
			}
		}
	}
	return ph
}

// specParse parses a rules text; include files are expanded in place.
func specParse(text string, depth int) ([]*hRule, error) {
	if depth > 6 {
		return nil, errBad
	}
	p := &hParser{t: specLex(text)}
	var out []*hRule
	for {
		if p.cur().kind == "eof" {
			return out, nil
		}
		if p.kw() == "include" {
			p.next()
			f, err := p.arg()
			if err != nil {
				return nil, err
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			l, err := specParse(string(b), depth+1)
			if err != nil {
				return nil, err
			}
			if k := p.cur().kind; k != "eol" && k != "eof" {
				return nil, errBad
			}
			out = append(out, l...)
			p.next()
			continue
		}
		r, err := p.rule()
		if err != nil {
			return nil, err
		}
		out = append(out, r)
	}
}

// ---- meaning

type hState struct {
	cmd              smtpd.Command
	helo, from, rcpt string
	rip, lip         string
	tls              bool
	rdns             *rDNSResults
	hits             map[string]bool
}

var hBits = []struct {
	n string
	b Option
}{{"helo", oHelo}, {"ehlo", oEhlo}, {"none", oNone}, {"bogus", oBogus}, {"nodots", oNodots}, {"bareip", oBareip}, {"properip", oProperip},
	{"myip", oMyip}, {"remip", oRemip}, {"otherip", oOtherip}, {"nodns", oNodns}, {"inconsistent", oInconsist}, {"noforward", oNofwd},
	{"good", oGood}, {"exists", oExists}, {"unqualified", oUnqualified}, {"route", oRoute}, {"quoted", oQuoted}, {"noat", oNoat},
	{"garbage", oGarbage}, {"resolves", oDomainValid}, {"baddom", oDomainInvalid}, {"unknown", oDomainTempfail}}

func hHasOpt(names []string, have Option) bool {
	m := map[string]bool{}
	for _, x := range hBits {
		if have&x.b != 0 {
			m[x.n] = true
		}
	}
	m["bad"] = m["noat"] || m["quoted"] || m["unqualified"] || m["garbage"]
	m["ip"] = m["bareip"] || m["properip"]
	for _, n := range names {
		if m[n] {
			return true
		}
	}
	return false
}

func hMatchList(arg string, vals []string, f func(v, pat string) bool) (bool, bool) {
	pl := specList(arg)
	if len(pl) == 0 {
		return false, true
	}
	for _, p := range pl {
		for _, v := range vals {
			if f(v, p) {
				return true, false
			}
		}
	}
	return false, false
}

// eval gives the value of a condition and whether an empty file was consulted.
func (s *hState) eval(e *hExpr) (val, miss bool) {
	switch e.op {
	case "and":
		for _, k := range e.kids {
			v, m := s.eval(k)
			miss = miss || m
			if !v {
				return false, miss
			}
		}
		return true, miss
	case "or":
		v, m := s.eval(e.kids[0])
		if v {
			return true, m
		}
		v, m2 := s.eval(e.kids[1])
		return v, m || m2
	case "not":
		v, m := s.eval(e.kids[0])
		return !v, m
	case "all":
		return true, false
	case "tls":
		return e.on == s.tls, false
	case "from":
		return hMatchList(e.arg, []string{s.from}, specMatchAddress)
	case "to":
		return hMatchList(e.arg, []string{s.rcpt}, specMatchAddress)
	case "helo":
		return hMatchList(e.arg, []string{s.helo}, specMatchHost)
	case "host":
		return hMatchList(e.arg, s.rdns.verified, specMatchHost)
	case "ip":
		return hMatchList(e.arg, []string{s.rip}, specMatchIp)
	case "source":
		v, m := hMatchList(e.arg, s.rdns.verified, specMatchHost)
		if v {
			return v, m
		}
		v, m2 := hMatchList(e.arg, []string{s.helo}, specMatchHost)
		m = m || m2
		if v {
			return v, m
		}
		v, m2 = hMatchList(e.arg, []string{s.from}, func(a, p string) bool { return specMatchAddress(a, "@"+p) })
		return v, m || m2
	case "from-has":
		return hHasOpt(e.opts, specAddrOpts(s.from)), false
	case "to-has":
		return hHasOpt(e.opts, specAddrOpts(s.rcpt)), false
	case "helo-has":
		return hHasOpt(e.opts, specHeloOpts(s.cmd, s.helo, s.rip, s.lip)), false
	case "dns":
		return hHasOpt(e.opts, specDnsOpts(s.rdns)), false
	case "dnsbl":
		p := strings.Split(s.rip, ".")
		if len(p) != 4 {
			return false, false
		}
		v := envListed(fmt.Sprintf("%s.%s.%s.%s.%s", p[3], p[2], p[1], p[0], e.arg))
		if v {
			s.hits[e.arg] = true
		}
		return v, false
	case "dbl":
		var names []string
		for _, o := range e.opts {
			if (o == "ehlo" || o == "helo" || o == "any") && s.helo != "" {
				names = append(names, s.helo)
			}
			if o == "host" || o == "any" {
				for _, l := range [][]string{s.rdns.verified, s.rdns.nofwd, s.rdns.inconsist} {
					for _, n := range l {
						names = append(names, strings.TrimSuffix(n, "."))
					}
				}
			}
			if (o == "from" || o == "any") && specAddrOpts(s.from)&(oDomainValid|oDomainInvalid|oDomainTempfail) != 0 {
				names = append(names, s.from[strings.IndexByte(s.from, '@')+1:])
			}
		}
		for _, n := range names {
			if envListed(n + "." + e.arg) {
				val = true
			}
		}
		if val {
			s.hits[e.arg] = true
		}
		return val, false
	}
	panic("no such condition " + e.op)
}

// check judges a rule: matched, missed, and the options of the matching clause.
func (s *hState) check(r *hRule) (bool, bool, map[string]string) {
	for _, cl := range r.clauses {
		v, m := s.eval(cl.e)
		if m {
			return false, true, nil
		}
		if v {
			return true, false, cl.withs
		}
	}
	return false, false, nil
}

// hModel is the state that decisions depend on.
type hModel struct {
	st       hState
	rules    []*hRule
	rcpts    []string
	def      Action
	defprops map[string]string
	defhits  map[string]bool
	props    map[string]string
}

func (m *hModel) decide(ph Phase, evt smtpd.EventInfo) Action {
	switch ph {
	case pHelo:
		m.st.cmd, m.st.helo = evt.Cmd, evt.Arg
		m.def = aError
	case pMfrom:
		m.st.from = evt.Arg
		m.def = aError
	case pRto:
		m.st.rcpt = evt.Arg
	case pData, pMessage:
		m.st.rcpt = ""
	}
	m.st.hits = map[string]bool{}
	m.props = map[string]string{}
	if m.def != aError {
		for k, v := range m.defprops {
			m.props[k] = v
		}
		m.st.hits = m.defhits
		return m.def
	}
	ret := aNoresult
	for _, r := range m.rules {
		if r.req > ph || r.phase != pAny && r.phase != ph {
			continue
		}
		var hit, miss bool
		var w map[string]string
		if ph > pRto && r.req >= pRto {
			for _, a := range m.rcpts {
				m.st.rcpt = a
				hit, miss, w = m.st.check(r)
				if hit || miss {
					break
				}
			}
		} else {
			hit, miss, w = m.st.check(r)
		}
		if miss || !hit {
			continue
		}
		for k, v := range w {
			m.props[k] = v
		}
		if r.act != aNoresult {
			ret = r.act
			break
		}
	}
	if ph == pMfrom && evt.Arg == "" && (ret == aStall || ret == aReject) {
		m.def, m.defprops, m.defhits = ret, m.props, m.st.hits
		m.props = map[string]string{}
		ret = aAccept
	}
	return ret
}
