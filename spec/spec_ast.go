package main

// Specification functions over the rule nodes of the code. Only the verifier reads these.

import (
	"strings"

	"github.com/siebenmann/smtpd"
)

func semAnd(l []Expr, i int, c *Context) bool {
	if i < 0 || i >= len(l) {
		return true
	}
	return semExpr(l[i], c) && semAnd(l, i+1, c)
}

func missAnd(l []Expr, i int, c *Context) bool {
	if i < 0 || i >= len(l) {
		return false
	}
	return missExpr(l[i], c) || semExpr(l[i], c) && missAnd(l, i+1, c)
}

func semExpr(e Expr, c *Context) bool {
	switch n := e.(type) {
	case *AndL:
		return semAnd(n.nodes, 0, c)
	case *OrN:
		return semExpr(n.left, c) || semExpr(n.right, c)
	case *NotN:
		return !semExpr(n.node, c)
	case *AllN:
		return true
	case *TlsN:
		return n.on == c.trans.tlson
	case *MatchN:
		return anyPat(specList(n.arg), 0, n.getter(c), n.matcher)
	case *matchSource:
		return semExpr(n.host, c) || semExpr(n.ehlo, c) || semExpr(n.from, c)
	case *OptionN:
		return n.opts&n.getter(c) != 0
	case *DNSblN:
		return semDnsbl(n.domain, c)
	case *DblNode:
		return semDbl(n.domain, n.src, c)
	}
	return false
}

// missExpr: evaluating e consults an empty pattern file.
func missExpr(e Expr, c *Context) bool {
	switch n := e.(type) {
	case *AndL:
		return missAnd(n.nodes, 0, c)
	case *OrN:
		return missExpr(n.left, c) || !semExpr(n.left, c) && missExpr(n.right, c)
	case *NotN:
		return missExpr(n.node, c)
	case *MatchN:
		return len(specList(n.arg)) == 0
	case *matchSource:
		return missExpr(n.host, c) || !semExpr(n.host, c) && (missExpr(n.ehlo, c) || !semExpr(n.ehlo, c) && missExpr(n.from, c))
	}
	return false
}

// ---- C22: blocklists

func semDnsbl(domain string, c *Context) bool {
	if c.trans.rip == "" {
		return false
	}
	p := strings.Split(c.trans.rip, ".")
	if len(p) != 4 {
		return false
	}
	return envListed(p[3] + "." + p[2] + "." + p[1] + "." + p[0] + "." + domain)
}

func semDbl(domain string, src Option, c *Context) bool {
	if src&(oEhlo|oHelo) != 0 && c.heloname != "" && envListed(c.heloname+"."+domain) {
		return true
	}
	if src&oHost == oHost {
		if anyListed(c.trans.rdns.verified, 0, domain) || anyListed(c.trans.rdns.nofwd, 0, domain) || anyListed(c.trans.rdns.inconsist, 0, domain) {
			return true
		}
	}
	if src&oFrom == oFrom && specAddrOpts(c.from)&(oDomainValid|oDomainInvalid|oDomainTempfail) != 0 {
		return envListed(c.from[strings.IndexByte(c.from, '@')+1:] + "." + domain)
	}
	return false
}

// ---- well-formed conditions and contexts

func wfList(l []Expr, i int) bool {
	if i < 0 || i >= len(l) {
		return true
	}
	return wfExpr(l[i]) && wfList(l, i+1)
}

func wfExpr(e Expr) bool {
	switch n := e.(type) {
	case *AndL:
		return n != nil && wfList(n.nodes, 0)
	case *OrN:
		return n != nil && wfExpr(n.left) && wfExpr(n.right)
	case *NotN:
		return n != nil && wfExpr(n.node)
	case *AllN:
		return n != nil
	case *TlsN:
		return n != nil
	case *MatchN:
		return n != nil && n.matcher != nil && n.getter != nil
	case *matchSource:
		return n != nil && wfExpr(n.host) && wfExpr(n.ehlo) && wfExpr(n.from)
	case *OptionN:
		return n != nil && n.getter != nil
	case *DNSblN:
		return n != nil
	case *DblNode:
		return n != nil
	}
	return false
}

func ctxOK(c *Context) bool {
	return c != nil && c.trans != nil && c.trans.rdns != nil && c.files != nil && c.dnsbl != nil && c.domvalid != nil
}

// ---- rules: which clause of a rule matches, and does judging it consult an empty file

func ruleIdx(cl []*RClause, i int, c *Context) int {
	if i < 0 || i >= len(cl) {
		return -1
	}
	if missExpr(cl[i].expr, c) {
		return -1
	}
	if semExpr(cl[i].expr, c) {
		return i
	}
	return ruleIdx(cl, i+1, c)
}

func ruleMiss(cl []*RClause, i int, c *Context) bool {
	if i < 0 || i >= len(cl) {
		return false
	}
	return missExpr(cl[i].expr, c) || !semExpr(cl[i].expr, c) && ruleMiss(cl, i+1, c)
}

func semExprAt(e Expr, c *Context, rcpt string) bool {
	c.rcptto = rcpt
	return semExpr(e, c)
}

func missExprAt(e Expr, c *Context, rcpt string) bool {
	c.rcptto = rcpt
	return missExpr(e, c)
}

func semAndAt(l []Expr, i int, c *Context, rcpt string) bool {
	c.rcptto = rcpt
	return semAnd(l, i, c)
}

func missAndAt(l []Expr, i int, c *Context, rcpt string) bool {
	c.rcptto = rcpt
	return missAnd(l, i, c)
}

func ruleIdxAt(cl []*RClause, i int, c *Context, rcpt string) int {
	c.rcptto = rcpt
	return ruleIdx(cl, i, c)
}

func ruleMissAt(cl []*RClause, i int, c *Context, rcpt string) bool {
	c.rcptto = rcpt
	return ruleMiss(cl, i, c)
}

// fnreads_Context_rcptto: the function value looks at the current recipient.
func fnreads_Context_rcptto(g interface{}) bool

// rcptFree: the condition does not look at the recipient.
func rcptFree(e Expr) bool {
	switch n := e.(type) {
	case *AndL:
		return rcptFreeList(n.nodes, 0)
	case *OrN:
		return rcptFree(n.left) && rcptFree(n.right)
	case *NotN:
		return rcptFree(n.node)
	case *MatchN:
		return !fnreads_Context_rcptto(n.getter)
	case *OptionN:
		return !fnreads_Context_rcptto(n.getter)
	case *matchSource:
		return rcptFree(n.host) && rcptFree(n.ehlo) && rcptFree(n.from)
	}
	return true
}

func rcptFreeList(l []Expr, i int) bool {
	if i < 0 || i >= len(l) {
		return true
	}
	return rcptFree(l[i]) && rcptFreeList(l, i+1)
}

func rcptFreeRule(cl []*RClause, i int) bool {
	if i < 0 || i >= len(cl) {
		return true
	}
	return rcptFree(cl[i].expr) && rcptFreeRule(cl, i+1)
}

// Lemmas: a condition that does not look at the recipient means the same for every recipient.
func lemFree(e Expr, c *Context, rcpt string) {
	switch n := e.(type) {
	case *AndL:
		lemFreeList(n.nodes, 0, c, rcpt)
	case *OrN:
		lemFree(n.left, c, rcpt)
		lemFree(n.right, c, rcpt)
	case *NotN:
		lemFree(n.node, c, rcpt)
	case *matchSource:
		lemFree(n.host, c, rcpt)
		lemFree(n.ehlo, c, rcpt)
		lemFree(n.from, c, rcpt)
	}
}

func lemFreeList(l []Expr, i int, c *Context, rcpt string) {
	if i >= 0 && i < len(l) {
		lemFree(l[i], c, rcpt)
		lemFreeList(l, i+1, c, rcpt)
	}
}

func lemFreeRule(cl []*RClause, i int, c *Context, rcpt string) {
	if i >= 0 && i < len(cl) {
		lemFree(cl[i].expr, c, rcpt)
		lemFreeRule(cl, i+1, c, rcpt)
	}
}

func wfClauses(cl []*RClause, i int) bool {
	if i < 0 || i >= len(cl) {
		return true
	}
	return cl[i] != nil && wfExpr(cl[i].expr) && wfClauses(cl, i+1)
}

func hasKey(m map[string]string, k string) bool {
	_, ok := m[k]
	return ok
}

// rcptIdx: the first recipient from j on for which the rule matches or consults an empty file.
func rcptIdx(cl []*RClause, l []string, j int, c *Context) int {
	if j < 0 || j >= len(l) {
		return -1
	}
	if ruleMissAt(cl, 0, c, l[j]) || ruleIdxAt(cl, 0, c, l[j]) >= 0 {
		return j
	}
	return rcptIdx(cl, l, j+1, c)
}

// rcptHit: the clause with which a rule about recipients matches, or -1.
func rcptHit(cl []*RClause, l []string, c *Context) int {
	c.rcptto = ""
	j := rcptIdx(cl, l, 0, c)
	if j < 0 {
		return -1
	}
	return ruleIdxAt(cl, 0, c, l[j])
}

func rcptMiss(cl []*RClause, l []string, c *Context) bool {
	c.rcptto = ""
	j := rcptIdx(cl, l, 0, c)
	return j >= 0 && ruleMissAt(cl, 0, c, l[j])
}

// ruleHit: the clause of the rule that matches in this phase, or -1. Recipients
// accepted so far are judged one by one after RCPT TO.
func ruleHit(r *Rule, ph Phase, c *Context) int {
	if r.requires > ph || r.deferto != pAny && r.deferto != ph {
		return -1
	}
	if ph > pRto && r.requires >= pRto {
		return rcptHit(r.clauses, c.trans.rcptto, c)
	}
	if ph > pRto {
		return ruleIdxAt(r.clauses, 0, c, "")
	}
	return ruleIdx(r.clauses, 0, c)
}

// decideFrom: what rules i and later decide.
func decideFrom(rs []*Rule, i int, ph Phase, c *Context) Action {
	if i < 0 || i >= len(rs) {
		return aNoresult
	}
	if rs[i].result >= aAccept && ruleHit(rs[i], ph, c) >= 0 {
		return rs[i].result
	}
	return decideFrom(rs, i+1, ph, c)
}

// hasFrom, propFrom: option k after rules i and later, when it was (has, v) before them.
func hasFrom(rs []*Rule, i int, ph Phase, c *Context, k string, has bool) bool {
	if i < 0 || i >= len(rs) {
		return has
	}
	h := ruleHit(rs[i], ph, c)
	if h < 0 {
		return hasFrom(rs, i+1, ph, c, k, has)
	}
	n := has || hasKey(rs[i].clauses[h].withs, k)
	if rs[i].result >= aAccept {
		return n
	}
	return hasFrom(rs, i+1, ph, c, k, n)
}

func propFrom(rs []*Rule, i int, ph Phase, c *Context, k string, v string) string {
	if i < 0 || i >= len(rs) {
		return v
	}
	h := ruleHit(rs[i], ph, c)
	if h < 0 {
		return propFrom(rs, i+1, ph, c, k, v)
	}
	n := v
	if hasKey(rs[i].clauses[h].withs, k) {
		n = rs[i].clauses[h].withs[k]
	}
	if rs[i].result >= aAccept {
		return n
	}
	return propFrom(rs, i+1, ph, c, k, n)
}

// enter: the facts that hold while a command is judged.
func enter(ph Phase, evt smtpd.EventInfo, c *Context) {
	switch ph {
	case pHelo:
		c.helocmd = evt.Cmd
		c.heloname = evt.Arg
		c.defresult = aError
	case pMfrom:
		c.from = evt.Arg
		c.defresult = aError
	case pRto:
		c.rcptto = evt.Arg
	case pData, pMessage:
		c.rcptto = ""
	}
}

func pre_decide(rs []*Rule, i int, ph Phase, evt smtpd.EventInfo, c *Context) Action {
	enter(ph, evt, c)
	return decideFrom(rs, i, ph, c)
}

func pre_has(rs []*Rule, i int, ph Phase, evt smtpd.EventInfo, c *Context, k string, has bool) bool {
	enter(ph, evt, c)
	return hasFrom(rs, i, ph, c, k, has)
}

func pre_prop(rs []*Rule, i int, ph Phase, evt smtpd.EventInfo, c *Context, k string, v string) string {
	enter(ph, evt, c)
	return propFrom(rs, i, ph, c, k, v)
}

// pre_deferred: a refusal of this transaction's null sender is in force.
func pre_deferred(ph Phase, c *Context) bool {
	return ph != pHelo && ph != pMfrom && c.defresult >= aAccept
}

// pre_rcptHit, pre_rcptMiss, pre_rcptIdx are evaluated in the state at entry.
func pre_rcptHit(cl []*RClause, l []string, c *Context) int   { return rcptHit(cl, l, c) }
func pre_rcptMiss(cl []*RClause, l []string, c *Context) bool { return rcptMiss(cl, l, c) }
func pre_rcptIdx(cl []*RClause, l []string, j int, c *Context) int {
	c.rcptto = ""
	return rcptIdx(cl, l, j, c)
}

func wfRules(rs []*Rule, i int) bool {
	if i < 0 || i >= len(rs) {
		return true
	}
	return wfRule(rs[i]) && wfRules(rs, i+1)
}

func wfRule(r *Rule) bool {
	return r != nil && r.result >= aNoresult && r.result <= aReject && wfClauses(r.clauses, 0) && (r.requires >= pRto || rcptFreeRule(r.clauses, 0))
}

// the rules of well-formed parts are well-formed
func lemWfShift(a, b []*Rule, j int) {
	if j >= 0 && j < len(b) {
		lemWfShift(a, b, j+1)
	}
}

func lemWfApp(a, b []*Rule, i int) {
	if i >= 0 && i < len(a) {
		lemWfApp(a, b, i+1)
	}
	if i >= len(a) {
		lemWfShift(a, b, 0)
	}
}

func lemParse(text string) {}

func lemWfFiles(l []string, i int) {
	if i >= 0 && i < len(l) {
		lemWfFiles(l, i+1)
		lemParse(uFileData(l[i]))
		lemWfApp(fileRules(l[i]), filesRules(l, i+1), 0)
	}
}

// ---- witnesses for domain blocklists

func hasName(m map[string]struct{}, k string) bool {
	_, ok := m[k]
	return ok
}

func firstListed(names []string, i int, domain string) string {
	if i < 0 || i >= len(names) {
		return ""
	}
	if envListed(strings.TrimSuffix(names[i], ".") + "." + domain) {
		return strings.TrimSuffix(names[i], ".")
	}
	return firstListed(names, i+1, domain)
}

// dblName: the first name that makes the condition hold.
func dblName(domain string, src Option, c *Context) string {
	if src&(oEhlo|oHelo) != 0 && c.heloname != "" && envListed(c.heloname+"."+domain) {
		return c.heloname
	}
	if src&oHost == oHost {
		if anyListed(c.trans.rdns.verified, 0, domain) {
			return firstListed(c.trans.rdns.verified, 0, domain)
		}
		if anyListed(c.trans.rdns.nofwd, 0, domain) {
			return firstListed(c.trans.rdns.nofwd, 0, domain)
		}
		if anyListed(c.trans.rdns.inconsist, 0, domain) {
			return firstListed(c.trans.rdns.inconsist, 0, domain)
		}
	}
	return c.from[strings.IndexByte(c.from, '@')+1:]
}

func lemFirst(names []string, i int, domain string) {
	if i >= 0 && i < len(names) {
		lemFirst(names, i+1, domain)
	}
}

// ---- what the node constructors build

func nodeMatches(e Expr, a string, p string) bool {
	n, ok := e.(*MatchN)
	return ok && n != nil && n.matcher(a, p)
}

func nodeGets(e Expr, c *Context) []string {
	n, ok := e.(*MatchN)
	if !ok || n == nil {
		return nil
	}
	return n.getter(c)
}

func nodeArg(e Expr, arg string) bool {
	n, ok := e.(*MatchN)
	return ok && n != nil && n.arg == arg && n.matcher != nil && n.getter != nil
}

func optNode(e Expr, o Option) bool {
	n, ok := e.(*OptionN)
	return ok && n != nil && n.opts == o && n.getter != nil
}

func optGets(e Expr, c *Context) Option {
	n, ok := e.(*OptionN)
	if !ok || n == nil {
		return 0
	}
	return n.getter(c)
}

func srcNode(e Expr) bool {
	n, ok := e.(*matchSource)
	return ok && n != nil
}

func srcPart(e Expr, i int) Expr {
	n, ok := e.(*matchSource)
	if !ok || n == nil {
		return nil
	}
	if i == 0 {
		return n.host
	}
	if i == 1 {
		return n.ehlo
	}
	return n.from
}

func isDbl(e Expr, src Option, domain string) bool {
	n, ok := e.(*DblNode)
	return ok && n != nil && n.src == src && n.domain == domain
}
