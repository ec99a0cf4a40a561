package main

// C13: how a rules text splits into tokens. For the verifier only.

import "strings"

func isfn_lexLineStart(f stateFn) bool
func isfn_lexLineRunning(f stateFn) bool
func isfn_lexSpecial(f stateFn) bool
func isfn_lexWord(f stateFn) bool
func isfn_lexQuote(f stateFn) bool
func isfn_lexComment(f stateFn) bool

// ghLex: what has gone through a lexer's channel.
type ghLex struct {
	begun bool // something was sent
	next  int  // the place of the token after the one sent last
	done  bool // the last one sent was end of file or an error
	got   int  // how many tokens were received
}

func cast_ghLex(l *lexer) *ghLex

// lexPlace: the place of the token to be sent next.
func lexPlace(l *lexer) int {
	g := cast_ghLex(l)
	if !g.begun {
		return lexSkip(l.input, mStart, 0)
	}
	return g.next
}

const (
	mRun   = 0 // within a line
	mStart = 1 // at the start of a line
	mComma = 2 // just after a comma
)

func isBlank(c byte) bool { return c == ' ' || c == '\t' }

func lineEnd(in string, p int) int {
	i := strings.IndexByte(in[p:], '\n')
	if i < 0 {
		return len(in)
	}
	return p + i
}

// lexSkip: where the next token is, given the text from p on; blanks, continuations and, at the start of a
// line, blank lines and comments are passed over. A comma before white space is an error: -1-p.
func lexSkip(in string, mode int, p int) int {
	if p < 0 || p > len(in) {
		return p
	}
	if mode == mComma {
		if p == len(in) || isBlank(in[p]) || in[p] == '\n' {
			return -1 - p
		}
		return lexSkip(in, mRun, p)
	}
	if p == len(in) {
		return p
	}
	if isBlank(in[p]) {
		return lexSkip(in, mode, p+1)
	}
	if in[p] == '\\' && p+1 < len(in) && in[p+1] == '\n' {
		return lexSkip(in, mode, p+2)
	}
	if mode == mStart && in[p] == '\n' {
		return lexSkip(in, mode, p+1)
	}
	if mode == mStart && in[p] == '#' {
		return lexSkip(in, mode, lineEnd(in, p+1))
	}
	return p
}

// quoted: the rest of a quoted string from q on: is it closed, where does it end, and what is in it.
func quoted(in string, q int) (bool, int, string) {
	if q < 0 || q >= len(in) {
		return false, q, ""
	}
	if in[q] == '"' {
		return true, q + 1, ""
	}
	if in[q] == '\\' && q+1 < len(in) && (in[q+1] == '"' || in[q+1] == '\\') {
		ok, e, v := quoted(in, q+2)
		return ok, e, in[q+1:q+2] + v
	}
	ok, e, v := quoted(in, q+1)
	return ok, e, in[q:q+1] + v
}

func wordEnd(in string, p int) int {
	i := strings.IndexAny(in[p:], "(),;\n \t")
	if i < 0 {
		return len(in)
	}
	return p + i
}

var specKeywords = map[string]itemType{
	"include":  itemInclude,
	"@connect": itemAConnect, "@helo": itemAHelo, "@from": itemAFrom, "@to": itemATo, "@data": itemAData, "@message": itemAMessage,
	"accept": itemAccept, "reject": itemReject, "stall": itemStall, "set-with": itemSetWith,
	"or": itemOr, "not": itemNot,
	"all": itemAll, "from": itemFrom, "to": itemTo, "helo": itemHelo, "host": itemHost,
	"from-has": itemFromHas, "to-has": itemToHas, "helo-has": itemHeloHas, "tls": itemTls, "dns": itemDns,
	"ip": itemIp, "dnsbl": itemDnsbl, "source": itemSource, "dbl": itemDbl,
	"with": itemWith, "message": itemMessage, "note": itemNote, "savedir": itemSavedir, "tls-opt": itemTlsOpt, "make-yakker": itemMakeYakker,
	"ehlo": itemEhlo, "none": itemNone, "bogus": itemBogus, "nodots": itemNodots, "bareip": itemBareip, "properip": itemProperip,
	"myip": itemMyip, "remip": itemRemip, "otherip": itemOtherip,
	"nodns": itemNodns, "inconsistent": itemInconsistent, "noforward": itemNoforward,
	"unqualified": itemUnqualified, "route": itemRoute, "quoted": itemQuoted, "noat": itemNoat, "garbage": itemGarbage,
	"resolves": itemDomainValid, "baddom": itemDomainInvalid, "unknown": itemDomainTempfail, "bad": itemBad,
	"on": itemOn, "off": itemOff, "good": itemGood, "exists": itemExists, "any": itemAny,
}

// ---- the token at place p, as given by lexSkip

func wordKind(w string) itemType {
	switch {
	case specKeywords[w] != itemError:
		return specKeywords[w]
	case strings.HasPrefix(w, "/") || strings.HasPrefix(w, "./"):
		return itemFilename
	case strings.HasPrefix(w, "file:"):
		if len(w) == len("file:") {
			return itemError
		}
		return itemFilename
	}
	return itemValue
}

func tokKind(in string, p int) itemType {
	if p < 0 {
		return itemError
	}
	if p >= len(in) {
		return itemEOF
	}
	switch in[p] {
	case ',':
		return itemComma
	case '(':
		return itemLparen
	case ')':
		return itemRparen
	case ';':
		return itemSemicolon
	case '\n':
		return itemEOL
	case '"':
		if quotedOK(in, p+1) {
			return itemValue
		}
		return itemError
	}
	return wordKind(in[p:wordEnd(in, p)])
}

func tokText(in string, p int) string {
	if p < 0 {
		return "comma followed by whitespace, EOL, or EOF"
	}
	if p >= len(in) {
		return ""
	}
	if isSpecial(in[p]) {
		return in[p : p+1]
	}
	if in[p] == '"' {
		if quotedOK(in, p+1) {
			return quotedVal(in, p+1)
		}
		return "unterminated quoted value"
	}
	w := in[p:wordEnd(in, p)]
	if wordKind(w) == itemError {
		return "'file:' with no filename"
	}
	return w
}

func tokPlace(p int) int {
	if p < 0 {
		return -1 - p
	}
	return p
}

// tokEnd: where the text goes on after it.
func tokEnd(in string, p int) int {
	switch {
	case p >= len(in):
		return p
	case isSpecial(in[p]):
		return p + 1
	case in[p] == '"':
		return quotedEnd(in, p+1)
	}
	return wordEnd(in, p)
}

func modeAfter(t itemType) int {
	switch t {
	case itemEOL:
		return mStart
	case itemComma:
		return mComma
	}
	return mRun
}

// place of the token after the one at p
func tokNext(in string, p int) int { return lexSkip(in, modeAfter(tokKind(in, p)), tokEnd(in, p)) }

// lexGoesOn: the state function f at position pos goes on with the token at the given place.
func lexGoesOn(f stateFn, in string, pos int, place int) bool {
	switch {
	case isfn_lexLineStart(f):
		return lexSkip(in, mStart, pos) == place
	case isfn_lexLineRunning(f):
		return lexSkip(in, mRun, pos) == place
	case isfn_lexComment(f):
		return lexSkip(in, mStart, lineEnd(in, pos)) == place
	case isfn_lexSpecial(f):
		return pos == place && (pos == len(in) || isSpecial(in[pos]))
	case isfn_lexQuote(f):
		return pos == place && pos < len(in) && in[pos] == '"'
	case isfn_lexWord(f):
		return pos == place && pos < len(in) && !isSpecial(in[pos]) && !isBlank(in[pos]) && in[pos] != '"'
	}
	return false
}

func isSpecial(c byte) bool { return c == ',' || c == '(' || c == ')' || c == ';' || c == '\n' }

// lexOK: the lexer stands between tokens, in state f.
func lexOK(l *lexer, f stateFn) bool {
	if f == nil {
		return cast_ghLex(l).done
	}
	if l == nil || l.start != l.pos && !isfn_lexComment(f) || l.pos < 0 || l.pos > len(l.input) {
		return false
	}
	return !cast_ghLex(l).done && lexGoesOn(f, l.input, l.pos, lexPlace(l))
}

// lexLeft goes down with every step, so lexing ends.
func lexLeft(f stateFn, in string, pos int) int {
	r := 0
	switch {
	case f == nil:
		return -1
	case isfn_lexLineStart(f) || isfn_lexLineRunning(f):
		r = 1
	case isfn_lexComment(f):
		r = 2
	}
	return 4*(len(in)-pos) + r
}

// ---- the channel: tokens are received in the order sent

//@ model send lexer.items
func modelSendItem(l *lexer, it item) {
	g := cast_ghLex(l)
	require(!g.done, "nothing is sent after the end of file or an error")
	p := lexPlace(l)
	require(it.typ == tokKind(l.input, p), "token sent has the right kind")
	require(it.val == tokText(l.input, p), "token sent has the right text")
	require(it.pos == tokPlace(p), "token sent has the right position")
	g.begun = true
	g.next = tokNext(l.input, p)
	g.done = it.typ == itemEOF || it.typ == itemError
}

//@ model new lexer
func modelNewLexer(l *lexer) {
	g := cast_ghLex(l)
	g.got = 0
	g.begun = false
	g.done = false
}

func uIndexAny(s, chars string) int

//@ model strings.IndexAny
func modelIndexAny(s, chars string) int {
	r := uIndexAny(s, chars)
	assume(r >= -1 && r < len(s))
	if chars == "\\\"" {
		assume(r < 0 || s[r] == '\\' || s[r] == '"')
		if r < 0 {
			assume(plain(s, 0, len(s)))
		} else {
			assume(plain(s, 0, r))
		}
	}
	if chars == "(),;\n \t" {
		assume(r < 0 || isSpecial(s[r]) || isBlank(s[r]))
		assume(r != 0 || isSpecial(s[0]) || isBlank(s[0]))
	}
	return r
}

// joinAll: the strings joined with nothing between them.
func joinAll(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return joinAll(l[:len(l)-1]) + l[len(l)-1]
}

func notNil(l []string) []string { return append([]string{}, l...) }

func uJoin(l []string, sep string) string

//@ model strings.Join
func modelJoin(l []string, sep string) string {
	if sep == "" {
		return joinAll(notNil(l))
	}
	return uJoin(l, sep)
}

// plain: no quote and no backslash from a up to b
func plain(in string, a, b int) bool {
	return a >= b || in[a] != '"' && in[a] != '\\' && plain(in, a+1, b)
}

// a stretch without quotes and backslashes is taken over as it is: s is the rest of in from a on
func lemQuoted(in string, s string, a, r, k int) {
	if k >= r {
		return
	}
	lemQuoted(in, s, a, r, k+1)
	lemSplit(in, a+k, a+k+1, a+r)
}

func foundLen(s string, r int) int {
	if r < 0 {
		return len(s)
	}
	return r
}

func lemJoin(l []string) {}

func lemSplit(s string, i, j, k int) {}

func quotedEnd(in string, q int) int   { _, e, _ := quoted(in, q); return e }
func quotedOK(in string, q int) bool   { ok, _, _ := quoted(in, q); return ok }
func quotedVal(in string, q int) string { _, _, v := quoted(in, q); return v }
