package main

// C11, C12: what a sequence of tokens means as rules. For the verifier only.

import (
	"net"
	"strings"
)

// ---- the tokens of a text: token n is the n-th one the lexer sends (see spec_lex.go)

func uTokTyp(in string, n int) itemType
func uTokVal(in string, n int) string
func uTokPos(in string, n int) int

// tokFacts: what holds of every token of a text; shown for the documented tokens by lemTok.
func tokFacts(in string, typ itemType, val string, pos int) bool {
	if typ < itemError || typ >= itemMaxItem || pos < 0 || pos > len(in) {
		return false
	}
	switch typ {
	case itemMessage:
		return val == "message"
	case itemNote:
		return val == "note"
	case itemSavedir:
		return val == "savedir"
	case itemTlsOpt:
		return val == "tls-opt"
	case itemMakeYakker:
		return val == "make-yakker"
	}
	return true
}

func lemTok(in string, p int) {}

//@ model recv lexer.items
func modelRecvItem(l *lexer) item {
	g := cast_ghLex(l)
	n := g.got
	require(n == 0 || uTokTyp(l.input, n-1) != itemEOF && uTokTyp(l.input, n-1) != itemError, "nothing is awaited after the end of file or an error")
	g.got++
	assume(tokFacts(l.input, uTokTyp(l.input, n), uTokVal(l.input, n), uTokPos(l.input, n)))
	return item{uTokTyp(l.input, n), uTokVal(l.input, n), uTokPos(l.input, n)}
}

func pIdx(p *parser) int { return cast_ghLex(p.l).got - 1 }

// parserOK: the parser looks at the token received last.
func parserOK(p *parser) bool {
	return p != nil && p.l != nil && pIdx(p) >= 0 && p.curtok.typ == uTokTyp(p.l.input, pIdx(p)) && p.curtok.val == uTokVal(p.l.input, pIdx(p)) && p.curtok.pos == uTokPos(p.l.input, pIdx(p)) &&
		tokFacts(p.l.input, p.curtok.typ, p.curtok.val, p.curtok.pos)
}

// ---- options

var specHeloMap = map[itemType]Option{
	itemHelo: oHelo, itemEhlo: oEhlo, itemNone: oNone, itemNodots: oNodots, itemBareip: oBareip, itemProperip: oProperip,
	itemMyip: oMyip, itemRemip: oRemip, itemOtherip: oOtherip, itemIp: oBareip | oProperip, itemBogus: oBogus,
}
var specDnsMap = map[itemType]Option{
	itemNodns: oNodns, itemInconsistent: oInconsist, itemNoforward: oNofwd, itemGood: oGood, itemExists: oExists,
}
var specAddrMap = map[itemType]Option{
	itemUnqualified: oUnqualified, itemRoute: oRoute, itemQuoted: oQuoted, itemNoat: oNoat, itemGarbage: oGarbage,
	itemBad: oUnqualified | oQuoted | oNoat | oGarbage,
	itemDomainValid: oDomainValid, itemDomainInvalid: oDomainInvalid, itemDomainTempfail: oDomainTempfail,
}
var specDblMap = map[itemType]Option{
	itemHost: oHost, itemEhlo: oEhlo, itemHelo: oEhlo, itemFrom: oFrom, itemAny: oHost | oEhlo | oFrom,
}

// the kinds of option lists: 1 helo-has, 2 dns, 3 from-has and to-has, 4 dbl
func optOf(kind int, t itemType) Option {
	switch kind {
	case 1:
		return specHeloMap[t]
	case 2:
		return specDnsMap[t]
	case 3:
		return specAddrMap[t]
	case 4:
		return specDblMap[t]
	}
	return oZero
}

func sameMapOpt(a, b map[itemType]Option) bool

func optMapKind(m map[itemType]Option) int {
	switch {
	case sameMapOpt(m, heloMap):
		return 1
	case sameMapOpt(m, dnsMap):
		return 2
	case sameMapOpt(m, addrMap):
		return 3
	case sameMapOpt(m, dblMap):
		return 4
	}
	return 0
}

func optsEnd(in string, i int, kind int) int {
	if optOf(kind, uTokTyp(in, i)) == oZero {
		return -1
	}
	if uTokTyp(in, i+1) == itemComma {
		return optsEnd(in, i+2, kind)
	}
	return i + 1
}

func optsVal(in string, i int, kind int) Option {
	o := optOf(kind, uTokTyp(in, i))
	if o != oZero && uTokTyp(in, i+1) == itemComma {
		return o | optsVal(in, i+2, kind)
	}
	return o
}

// ---- conditions: after* is where one that starts at token i ends: i if there is none, -1 if it is wrong

func isArg(in string, i int) bool { return uTokTyp(in, i) >= itemHasValue }

func isDomain(in string, i int) bool {
	return uTokTyp(in, i) == itemValue && strings.IndexByte(uTokVal(in, i), '.') != -1
}

func dotted(s string) string {
	if s[len(s)-1] != '.' {
		return s + "."
	}
	return s
}

func isIPArg(in string, i int) bool {
	if uTokTyp(in, i) == itemFilename {
		return true
	}
	if uTokTyp(in, i) != itemValue {
		return false
	}
	_, _, err := net.ParseCIDR(uTokVal(in, i))
	return err == nil || net.ParseIP(uTokVal(in, i)) != nil
}

func optKind(t itemType) int {
	switch t {
	case itemHeloHas:
		return 1
	case itemDns:
		return 2
	case itemFromHas, itemToHas:
		return 3
	case itemDbl:
		return 4
	}
	return 0
}

func okEnd(ok bool, j int) int {
	if ok {
		return j
	}
	return -1
}

func afterTerm(in string, i int) int {
	t := uTokTyp(in, i)
	switch t {
	case itemNot:
		j := afterTerm(in, i+1)
		return okEnd(j > i+1, j)
	case itemLparen:
		j := afterAndl(in, i+1)
		return okEnd(j > i+1 && uTokTyp(in, j) == itemRparen, j+1)
	case itemAll:
		return i + 1
	case itemFrom, itemTo, itemHelo, itemEhlo, itemHost, itemSource:
		return okEnd(isArg(in, i+1), i+2)
	case itemIp:
		return okEnd(isIPArg(in, i+1), i+2)
	case itemDnsbl:
		return okEnd(isDomain(in, i+1), i+2)
	case itemTls:
		return okEnd(uTokTyp(in, i+1) == itemOn || uTokTyp(in, i+1) == itemOff, i+2)
	case itemFromHas, itemToHas, itemDns, itemHeloHas:
		return optsEnd(in, i+1, optKind(t))
	case itemDbl:
		j := optsEnd(in, i+1, 4)
		return okEnd(j > 0 && isDomain(in, j), j+1)
	}
	return i
}

func afterOrl(in string, i int) int {
	j := afterTerm(in, i)
	if j < 0 || uTokTyp(in, j) != itemOr {
		return j
	}
	k := afterOrl(in, j+1)
	return okEnd(j > i && k > j+1, k)
}

func afterAndl(in string, i int) int {
	j := afterOrl(in, i)
	if j <= i {
		return j
	}
	return afterAndl(in, j)
}

// ---- what conditions mean

// the kinds of pattern
const (
	kAddr = iota
	kHost
	kFromHost
	kIp
)

func matchKind(k int, a, p string) bool {
	switch k {
	case kAddr:
		return specMatchAddress(a, p)
	case kHost:
		return specMatchHost(a, p)
	case kFromHost:
		return specMatchAddress(a, "@"+p)
	case kIp:
		return specMatchIp(a, p)
	}
	return false
}

func anyElemKind(els []string, i int, p string, k int) bool {
	if i < 0 || i >= len(els) {
		return false
	}
	return matchKind(k, els[i], p) || anyElemKind(els, i+1, p, k)
}

func anyKind(pl []string, i int, els []string, k int) bool {
	if i < 0 || i >= len(pl) {
		return false
	}
	return anyElemKind(els, 0, pl[i], k) || anyKind(pl, i+1, els, k)
}

// fnLike: the function matches as the kind does, for all strings; witA and witP are a counterexample where it does not.
func fnLike(m func(string, string) bool, k int) bool
func witA(m func(string, string) bool, k int) string
func witP(m func(string, string) bool, k int) string

func lemLikeIntro(m func(string, string) bool, k int)            {}
func lemLikeElim(m func(string, string) bool, k int, a, p string) {}

func lemElemKind(els []string, i int, p string, m func(string, string) bool, k int) {
	if i >= 0 && i < len(els) {
		lemLikeElim(m, k, els[i], p)
		lemElemKind(els, i+1, p, m, k)
	}
}

func lemKind(pl []string, i int, els []string, m func(string, string) bool, k int) {
	if i >= 0 && i < len(pl) {
		lemElemKind(els, 0, pl[i], m, k)
		lemKind(pl, i+1, els, m, k)
	}
}

func nodeMatcher(e Expr) func(string, string) bool {
	n, ok := e.(*MatchN)
	if !ok || n == nil {
		return nil
	}
	return n.matcher
}

func nodeArgOf(e Expr) string {
	n, ok := e.(*MatchN)
	if !ok || n == nil {
		return ""
	}
	return n.arg
}

func optMeaning(t itemType, o Option, c *Context) bool {
	switch t {
	case itemHeloHas:
		return o&specHeloOpts(c.helocmd, c.heloname, c.trans.rip, c.trans.lip) != 0
	case itemDns:
		return o&specDnsOpts(c.trans.rdns) != 0
	case itemFromHas:
		return o&specAddrOpts(c.from) != 0
	case itemToHas:
		return o&specAddrOpts(c.rcptto) != 0
	}
	return false
}

func semTerm(in string, i int, c *Context) bool {
	t, v := uTokTyp(in, i), uTokVal(in, i+1)
	switch t {
	case itemNot:
		return !semTerm(in, i+1, c)
	case itemLparen:
		return semAndl(in, i+1, c)
	case itemAll:
		return true
	case itemFrom:
		return anyKind(specList(v), 0, []string{c.from}, kAddr)
	case itemTo:
		return anyKind(specList(v), 0, []string{c.rcptto}, kAddr)
	case itemHelo, itemEhlo:
		return anyKind(specList(v), 0, []string{c.heloname}, kHost)
	case itemHost:
		return anyKind(specList(v), 0, c.trans.rdns.verified, kHost)
	case itemSource:
		return anyKind(specList(v), 0, c.trans.rdns.verified, kHost) || anyKind(specList(v), 0, []string{c.heloname}, kHost) || anyKind(specList(v), 0, []string{c.from}, kFromHost)
	case itemIp:
		return anyKind(specList(v), 0, []string{c.trans.rip}, kIp)
	case itemDnsbl:
		return semDnsbl(dotted(v), c)
	case itemTls:
		return (uTokTyp(in, i+1) == itemOn) == c.trans.tlson
	case itemFromHas, itemToHas, itemDns, itemHeloHas:
		return optMeaning(t, optsVal(in, i+1, optKind(t)), c)
	case itemDbl:
		return semDbl(dotted(uTokVal(in, optsEnd(in, i+1, 4))), optsVal(in, i+1, 4), c)
	}
	return false
}

func semOrl(in string, i int, c *Context) bool {
	j := afterTerm(in, i)
	if uTokTyp(in, j) != itemOr {
		return semTerm(in, i, c)
	}
	return semTerm(in, i, c) || semOrl(in, j+1, c)
}

func semAndl(in string, i int, c *Context) bool {
	j := afterOrl(in, i)
	if j <= i {
		return true
	}
	return semOrl(in, i, c) && semAndl(in, j, c)
}

// missTerm: judging it consults an empty pattern file
func missTerm(in string, i int, c *Context) bool {
	v := uTokVal(in, i+1)
	switch uTokTyp(in, i) {
	case itemNot:
		return missTerm(in, i+1, c)
	case itemLparen:
		return missAndl(in, i+1, c)
	case itemFrom, itemTo, itemHelo, itemEhlo, itemHost, itemIp, itemSource:
		return len(specList(v)) == 0
	}
	return false
}

func missOrl(in string, i int, c *Context) bool {
	j := afterTerm(in, i)
	if uTokTyp(in, j) != itemOr {
		return missTerm(in, i, c)
	}
	return missTerm(in, i, c) || !semTerm(in, i, c) && missOrl(in, j+1, c)
}

func missAndl(in string, i int, c *Context) bool {
	j := afterOrl(in, i)
	if j <= i {
		return false
	}
	return missOrl(in, i, c) || semOrl(in, i, c) && missAndl(in, j, c)
}

// ---- C11: the phase conditions need

func maxPhase(a, b Phase) Phase {
	if a < b {
		return b
	}
	return a
}

func reqTerm(in string, i int) Phase {
	switch uTokTyp(in, i) {
	case itemNot:
		return reqTerm(in, i+1)
	case itemLparen:
		return reqAndl(in, i+1)
	case itemHelo, itemEhlo, itemHeloHas:
		return pHelo
	case itemFrom, itemFromHas, itemSource, itemTls:
		return pMfrom
	case itemTo, itemToHas:
		return pRto
	case itemDbl:
		o := optsVal(in, i+1, 4)
		if o&oFrom != 0 {
			return pMfrom
		}
		if o&oEhlo != 0 {
			return pHelo
		}
	}
	return pAny
}

func reqOrl(in string, i int) Phase {
	j := afterTerm(in, i)
	if uTokTyp(in, j) != itemOr {
		return reqTerm(in, i)
	}
	return maxPhase(reqTerm(in, i), reqOrl(in, j+1))
}

func reqAndl(in string, i int) Phase {
	j := afterOrl(in, i)
	if j <= i {
		return pAny
	}
	return maxPhase(reqOrl(in, i), reqAndl(in, j))
}

// adding a condition at the end of a list
func lemSnoc(l []Expr, i int, c *Context) {
	if i >= 0 && i < len(l)-1 {
		lemSnoc(l, i+1, c)
	}
}

// ---- with options

func isNote(v string) bool { return strings.IndexByte(v, '\n') == -1 }

// wEnd: where the options that start at token i end, -1 if they are wrong; m, n, s are the message, note and savedir
// so far, t and y whether there is a tls-opt and a make-yakker
func wEnd(in string, i int, m, n, s string, t, y bool) int {
	v := uTokVal(in, i+1)
	switch uTokTyp(in, i) {
	case itemMessage:
		if m != "" || !isArg(in, i+1) {
			return -1
		}
		return wEnd(in, i+2, v, n, s, t, y)
	case itemNote:
		if n != "" || !isArg(in, i+1) || !isNote(v) {
			return -1
		}
		return wEnd(in, i+2, m, v, s, t, y)
	case itemSavedir:
		if s != "" || !isArg(in, i+1) {
			return -1
		}
		return wEnd(in, i+2, m, n, v, t, y)
	case itemTlsOpt:
		if t || !isArg(in, i+1) || v != "off" && v != "no-client" {
			return -1
		}
		return wEnd(in, i+2, m, n, s, true, y)
	case itemMakeYakker:
		if y {
			return -1
		}
		return wEnd(in, i+1, m, n, s, t, true)
	}
	return i
}

// wKey: the option of token i
func wKey(t itemType) string {
	switch t {
	case itemMessage:
		return "message"
	case itemNote:
		return "note"
	case itemSavedir:
		return "savedir"
	case itemTlsOpt:
		return "tls-opt"
	case itemMakeYakker:
		return "make-yakker"
	}
	return ""
}

func wHas(in string, i int, k string, h bool) bool {
	key := wKey(uTokTyp(in, i))
	if key == "" {
		return h
	}
	if key == "make-yakker" {
		return wHas(in, i+1, k, h || k == key)
	}
	return wHas(in, i+2, k, h || k == key)
}

func wVal(in string, i int, k string, v string) string {
	key := wKey(uTokTyp(in, i))
	if key == "" {
		return v
	}
	if key == "make-yakker" {
		if k == key {
			v = ""
		}
		return wVal(in, i+1, k, v)
	}
	if k == key {
		v = uTokVal(in, i+1)
	}
	return wVal(in, i+2, k, v)
}

func wEndOf(in string, i int, w map[string]string) int {
	return wEnd(in, i, w["message"], w["note"], w["savedir"], hasKey(w, "tls-opt"), hasKey(w, "make-yakker"))
}

// ---- clauses of a rule

func isEolTok(t itemType) bool  { return t == itemEOL || t == itemEOF }
func isEndTok(t itemType) bool  { return isEolTok(t) || t == itemSemicolon }

func afterWith(in string, j int) int {
	if uTokTyp(in, j) != itemWith {
		return j
	}
	e := wEnd(in, j+1, "", "", "", false, false)
	return okEnd(e > j+1 && isEndTok(uTokTyp(in, e)), e)
}

func clauseEnd(in string, i int, res Action) int {
	j := afterAndl(in, i)
	if j <= i {
		return -1
	}
	w := afterWith(in, j)
	return okEnd(w >= 0 && isEndTok(uTokTyp(in, w)) && (res != aNoresult || w > j), w)
}

// nextStart: where the clause after the one that ends at token w starts
func nextStart(in string, w int) int {
	if uTokTyp(in, w+1) == itemEOL {
		return w + 2
	}
	return w + 1
}

// clausesEnd: where the clauses that start at token i end: at the end of the line, or -1 if they are wrong
func clausesEnd(in string, i int, res Action) int {
	w := clauseEnd(in, i, res)
	if w < 0 || isEolTok(uTokTyp(in, w)) {
		return w
	}
	return clausesEnd(in, nextStart(in, w), res)
}

func nClauses(in string, i int, res Action) int {
	w := clauseEnd(in, i, res)
	if w < 0 || isEolTok(uTokTyp(in, w)) {
		return 1
	}
	return 1 + nClauses(in, nextStart(in, w), res)
}

// clauseStart: where clause q of the ones that start at token i starts
func clauseStart(in string, i int, res Action, q int) int {
	if q <= 0 {
		return i
	}
	return clauseStart(in, nextStart(in, clauseEnd(in, i, res)), res, q-1)
}

// reqClauses: the phase they need
func reqClauses(in string, i int, res Action) Phase {
	w := clauseEnd(in, i, res)
	if w < 0 || isEolTok(uTokTyp(in, w)) {
		return reqAndl(in, i)
	}
	return maxPhase(reqAndl(in, i), reqClauses(in, nextStart(in, w), res))
}

// clauseMeans: the clause means what the text at token s says; k is any option, c any context
//@ foldable
func clauseMeans(rc *RClause, in string, s int, k string, c *Context) bool {
	if rc == nil || rc.withs == nil {
		return false
	}
	j := afterAndl(in, s)
	if ctxOK(c) && (semExpr(rc.expr, c) != semAndl(in, s, c) || missExpr(rc.expr, c) != missAndl(in, s, c)) {
		return false
	}
	if uTokTyp(in, j) != itemWith {
		return !hasKey(rc.withs, k)
	}
	return hasKey(rc.withs, k) == wHas(in, j+1, k, false) && rc.withs[k] == wVal(in, j+1, k, "")
}

func lemSnocCl(l []*RClause, i int) {
	if i >= 0 && i < len(l)-1 {
		lemSnocCl(l, i+1)
	}
}

// ---- rules

var specPhases = map[itemType]Phase{
	itemAConnect: pConnect, itemAHelo: pHelo, itemAFrom: pMfrom, itemATo: pRto, itemAData: pData, itemAMessage: pMessage,
}
var specActions = map[itemType]Action{itemAccept: aAccept, itemReject: aReject, itemStall: aStall, itemSetWith: aNoresult}

// rulePhase: the phase the rule at token i names; ruleWord: where its action is
func rulePhase(in string, i int) Phase { return specPhases[uTokTyp(in, i)] }

func ruleWord(in string, i int) int {
	if rulePhase(in, i) != pAny {
		return i + 1
	}
	return i
}

func ruleAct(in string, i int) Action { return specActions[uTokTyp(in, ruleWord(in, i))] }
func ruleBody(in string, i int) int   { return ruleWord(in, i) + 1 }
func ruleReq(in string, i int) Phase  { return maxPhase(pAny, reqClauses(in, ruleBody(in, i), ruleAct(in, i))) }

// ruleEnd: the token after the rule at token i, -1 if it is wrong
//@ foldable
func ruleEnd(in string, i int) int {
	if uTokTyp(in, i) == itemEOF {
		return i
	}
	if ruleAct(in, i) == aError {
		return -1
	}
	e := clausesEnd(in, ruleBody(in, i), ruleAct(in, i))
	if e < 0 || rulePhase(in, i) != pAny && rulePhase(in, i) < ruleReq(in, i) {
		return -1
	}
	return eatLine(in, e)
}

func eatLine(in string, e int) int {
	if uTokTyp(in, e) == itemEOF {
		return e
	}
	return e + 1
}

// ruleMeans: the rule means what the text at token i says; q is any clause, k any option, c any context
//@ foldable
func ruleMeans(r *Rule, in string, i int, q int, k string, c *Context) bool {
	if r == nil || r.result != ruleAct(in, i) || r.deferto != rulePhase(in, i) || len(r.clauses) != nClauses(in, ruleBody(in, i), ruleAct(in, i)) {
		return false
	}
	return q < 0 || q >= len(r.clauses) || clauseMeans(r.clauses[q], in, clauseStart(in, ruleBody(in, i), ruleAct(in, i), q), k, c)
}

// ---- files

func incOK(in string, i int) bool {
	f := uTokVal(in, i+1)
	return isArg(in, i+1) && f != "" && fileOK(f) && isEolTok(uTokTyp(in, i+2))
}

// fileBad: something is wrong from token i on
func fileBad(in string, i int) bool {
	if uTokTyp(in, i) == itemInclude {
		return !incOK(in, i) || fileBad(in, eatLine(in, i+2))
	}
	e := ruleEnd(in, i)
	if e < 0 {
		return true
	}
	return uTokTyp(in, e) != itemEOF && fileBad(in, e)
}

// nRules: how many rules there are from token i on
func nRules(in string, i int) int {
	if uTokTyp(in, i) == itemInclude {
		return len(fileRules(uTokVal(in, i+1))) + nRules(in, eatLine(in, i+2))
	}
	if uTokTyp(in, i) == itemEOF {
		return 0
	}
	if uTokTyp(in, ruleEnd(in, i)) == itemEOF {
		return 1
	}
	return 1 + nRules(in, ruleEnd(in, i))
}

// ruleSrc: where rule n of the ones from token i on is: at a token, or -1 - t if it comes from the file that token t names
func ruleSrc(in string, i int, n int) int {
	if uTokTyp(in, i) == itemInclude {
		l := len(fileRules(uTokVal(in, i+1)))
		if n < l {
			return -1 - (i + 1)
		}
		return ruleSrc(in, eatLine(in, i+2), n-l)
	}
	if n <= 0 {
		return i
	}
	return ruleSrc(in, ruleEnd(in, i), n-1)
}

// ruleInc: which rule of that file it is
func ruleInc(in string, i int, n int) int {
	if uTokTyp(in, i) == itemInclude {
		l := len(fileRules(uTokVal(in, i+1)))
		if n < l {
			return n
		}
		return ruleInc(in, eatLine(in, i+2), n-l)
	}
	if n <= 0 {
		return 0
	}
	return ruleInc(in, ruleEnd(in, i), n-1)
}

// fileMeans: rule n is the one the text says
func fileMeans(rs []*Rule, in string, i int, n int, q int, k string, c *Context) bool {
	if n < 0 || n >= len(rs) {
		return true
	}
	s := ruleSrc(in, i, n)
	if s >= 0 {
		return ruleMeans(rs[n], in, s, q, k, c)
	}
	return rs[n] == fileRules(uTokVal(in, -1-s))[ruleInc(in, i, n)]
}

func fileReq(rs []*Rule, in string, i int, n int) bool {
	return n < 0 || n >= len(rs) || ruleSrc(in, i, n) < 0 || rs[n] != nil && rs[n].requires == ruleReq(in, ruleSrc(in, i, n))
}

func lemWfLast(l []*Rule, i int) {
	if i >= 0 && i < len(l)-1 {
		lemWfLast(l, i+1)
	}
}
