package main

//@ func lemTok(in string, p int)
//@ props C12 C13
//@ fulltab
//@ requires p >= -1 - len(in) && p <= len(in)
//@ ensures tokFacts(in, tokKind(in, p), tokText(in, p), tokPlace(p))

//@ func (l *lexer) lineInfo(pos int) (lnum int, lpos int)
//@ props C12 C26
//@ requires l != nil && 0 <= pos && pos <= len(l.input)

//@ func (p *parser) genError(msg string) (err error)
//@ props C12 C26
//@ requires parserOK(p)
//@ ensures err != nil

//@ func (p *parser) lineError(msg string) (err error)
//@ props C12 C26
//@ requires parserOK(p)
//@ ensures err != nil

//@ func (p *parser) posError(msg string) (err error)
//@ props C12 C26
//@ requires parserOK(p)
//@ ensures err != nil

//@ func (p *parser) pCommaOpts(m map[itemType]Option) (opt Option, err error)
//@ props C11 C12 C26
//@ requires parserOK(p) && optMapKind(m) != 0
//@ pre in string = p.l.input
//@ pre i int = pIdx(p)
//@ ensures parserOK(p)
//@ ensures (err != nil) == (optsEnd(in, i, optMapKind(m)) < 0)
//@ ensures err != nil || pIdx(p) == optsEnd(in, i, optMapKind(m)) && opt == optsVal(in, i, optMapKind(m)) && pIdx(p) > i
//@ modifies parser.curtok.typ@p, parser.curtok.val@p, parser.curtok.pos@p, ghLex.got@cast_ghLex(p.l)
//@ inv () parserOK(p) && pIdx(p) >= i
//@ inv () optsEnd(in, i, optMapKind(m)) == optsEnd(in, pIdx(p), optMapKind(m))
//@ inv (?o Option) optsVal(in, i, optMapKind(m)) == o | optsVal(in, pIdx(p), optMapKind(m))


//@ func lemLikeIntro(m func(string, string) bool, k int)
//@ ensures fnLike(m, k) || m(witA(m, k), witP(m, k)) != matchKind(k, witA(m, k), witP(m, k))
//@ trusted

//@ func lemLikeElim(m func(string, string) bool, k int, a string, p string)
//@ requires fnLike(m, k)
//@ ensures m(a, p) == matchKind(k, a, p)
//@ trusted

//@ func lemElemKind(els []string, i int, p string, m func(string, string) bool, k int)
//@ props C12
//@ requires i >= 0 && m != nil && fnLike(m, k)
//@ ensures anyElem(els, i, p, m) == anyElemKind(els, i, p, k)

//@ func lemKind(pl []string, i int, els []string, m func(string, string) bool, k int)
//@ props C12
//@ requires i >= 0 && m != nil && fnLike(m, k)
//@ ensures anyPat(pl, i, els, m) == anyKind(pl, i, els, k)

//@ func lemSnoc(l []Expr, i int, c *Context)
//@ props C12
//@ unfold 1
//@ requires i >= 0 && i < len(l)
//@ ensures semAnd(l, i, c) == (semAnd(l[:len(l)-1], i, c) && semExpr(l[len(l)-1], c))
//@ ensures missAnd(l, i, c) == (missAnd(l[:len(l)-1], i, c) || semAnd(l[:len(l)-1], i, c) && missExpr(l[len(l)-1], c))
//@ ensures wfList(l, i) == (wfList(l[:len(l)-1], i) && wfExpr(l[len(l)-1]))
//@ ensures rcptFreeList(l, i) == (rcptFreeList(l[:len(l)-1], i) && rcptFree(l[len(l)-1]))

//@ func (p *parser) pTerm() (e Expr, err error)
//@ props C11 C12 C26
//@ forall c *Context
//@ requires parserOK(p) && p.currule != nil && p.currule.requires >= pAny
//@ pre in string = p.l.input
//@ pre i int = pIdx(p)
//@ pre req0 Phase = p.currule.requires
//@ ensures parserOK(p)
//@ ensures[C12] (err != nil) == (afterTerm(in, i) < 0)
//@ ensures[C12] err != nil || pIdx(p) == afterTerm(in, i) && (e == nil) == (afterTerm(in, i) == i)
//@ ensures err != nil || pIdx(p) >= i
//@ ensures p.currule.requires >= pAny
//@ ensures[C12,C26] err != nil || e == nil || wfExpr(e)
//@ ensures[C12] err != nil || e == nil || !ctxOK(c) || semExpr(e, c) == semTerm(in, i, c)
//@ ensures[C12] err != nil || e == nil || !ctxOK(c) || missExpr(e, c) == missTerm(in, i, c)
//@ ensures[C11] err != nil || p.currule.requires == maxPhase(req0, reqTerm(in, i))
//@ ensures[C11] err != nil || e != nil || p.currule.requires == req0
//@ ensures[C11] err != nil || e == nil || p.currule.requires >= pRto || rcptFree(e)
//@ modifies parser.curtok.typ@p, parser.curtok.val@p, parser.curtok.pos@p, ghLex.got@cast_ghLex(p.l), Rule.requires@p.currule

//@ func (p *parser) pOrl() (e Expr, err error)
//@ props C11 C12 C26
//@ forall c *Context
//@ requires parserOK(p) && p.currule != nil && p.currule.requires >= pAny
//@ pre in string = p.l.input
//@ pre i int = pIdx(p)
//@ pre req0 Phase = p.currule.requires
//@ ensures parserOK(p)
//@ ensures[C12] (err != nil) == (afterOrl(in, i) < 0)
//@ ensures[C12] err != nil || pIdx(p) == afterOrl(in, i) && (e == nil) == (afterOrl(in, i) == i)
//@ ensures err != nil || pIdx(p) >= i
//@ ensures p.currule.requires >= pAny
//@ ensures[C12,C26] err != nil || e == nil || wfExpr(e)
//@ ensures[C12] err != nil || e == nil || !ctxOK(c) || semExpr(e, c) == semOrl(in, i, c)
//@ ensures[C12] err != nil || e == nil || !ctxOK(c) || missExpr(e, c) == missOrl(in, i, c)
//@ ensures[C11] err != nil || p.currule.requires == maxPhase(req0, reqOrl(in, i))
//@ ensures[C11] err != nil || e != nil || p.currule.requires == req0
//@ ensures[C11] err != nil || e == nil || p.currule.requires >= pRto || rcptFree(e)
//@ modifies parser.curtok.typ@p, parser.curtok.val@p, parser.curtok.pos@p, ghLex.got@cast_ghLex(p.l), Rule.requires@p.currule

//@ func (p *parser) pAndl() (e Expr, err error)
//@ props C11 C12 C26
//@ forall c *Context
//@ requires parserOK(p) && p.currule != nil && p.currule.requires >= pAny
//@ pre in string = p.l.input
//@ pre i int = pIdx(p)
//@ pre req0 Phase = p.currule.requires
//@ ensures parserOK(p)
//@ ensures[C12] (err != nil) == (afterAndl(in, i) < 0)
//@ ensures[C12] err != nil || pIdx(p) == afterAndl(in, i) && (e == nil) == (afterAndl(in, i) == i)
//@ ensures err != nil || pIdx(p) >= i
//@ ensures p.currule.requires >= pAny
//@ ensures[C12,C26] err != nil || e == nil || wfExpr(e)
//@ ensures[C12] err != nil || e == nil || !ctxOK(c) || semExpr(e, c) == semAndl(in, i, c)
//@ ensures[C12] err != nil || e == nil || !ctxOK(c) || missExpr(e, c) == missAndl(in, i, c)
//@ ensures[C11] err != nil || p.currule.requires == maxPhase(req0, reqAndl(in, i))
//@ ensures[C11] err != nil || e != nil || p.currule.requires == req0
//@ ensures[C11] err != nil || e == nil || p.currule.requires >= pRto || rcptFree(e)
//@ modifies parser.curtok.typ@p, parser.curtok.val@p, parser.curtok.pos@p, ghLex.got@cast_ghLex(p.l), Rule.requires@p.currule
//@ inv () parserOK(p) && pIdx(p) >= i && p.currule != nil && p.currule.requires >= pAny
//@ inv () afterAndl(in, i) == afterAndl(in, pIdx(p))
//@ inv () maxPhase(req0, reqAndl(in, i)) == maxPhase(p.currule.requires, reqAndl(in, pIdx(p)))
//@ inv (?n []Expr) (len(n) == 0) == (pIdx(p) == i)
//@ inv (?n []Expr) wfList(n, 0)
//@ inv (?n []Expr) !ctxOK(c) || semAndl(in, i, c) == (semAnd(n, 0, c) && semAndl(in, pIdx(p), c))
//@ inv (?n []Expr) !ctxOK(c) || missAndl(in, i, c) == (missAnd(n, 0, c) || semAnd(n, 0, c) && missAndl(in, pIdx(p), c))
//@ inv (?n []Expr) p.currule.requires >= pRto || rcptFreeList(n, 0)
//@ step (?n []Expr) lemSnoc(n, 0, c)

//@ func (p *parser) pWClause(rc *RClause) (good bool, err error)
//@ props C12 C26
//@ forall k string
//@ requires parserOK(p) && rc != nil && rc.withs != nil
//@ pre in string = p.l.input
//@ pre i int = pIdx(p)
//@ pre e int = wEndOf(in, i, rc.withs)
//@ pre h bool = wHas(in, i, k, hasKey(rc.withs, k))
//@ pre v string = wVal(in, i, k, rc.withs[k])
//@ pre n0 int = len(rc.withs)
//@ ensures parserOK(p)
//@ ensures[C12] (err != nil) == (e < 0)
//@ ensures[C12] err != nil || pIdx(p) == e && good == (e > i) && e >= i
//@ ensures[C12] err != nil || hasKey(rc.withs, k) == h && rc.withs[k] == v
//@ ensures[C12] err != nil || (len(rc.withs) == 0) == (n0 == 0 && e == i)
//@ modifies parser.curtok.typ@p, parser.curtok.val@p, parser.curtok.pos@p, ghLex.got@cast_ghLex(p.l), M:map[string]string@rc.withs
//@ inv () parserOK(p) && pIdx(p) >= i && rc.withs != nil
//@ inv () e == wEndOf(in, pIdx(p), rc.withs)
//@ inv () h == wHas(in, pIdx(p), k, hasKey(rc.withs, k))
//@ inv () v == wVal(in, pIdx(p), k, rc.withs[k])
//@ inv () (len(rc.withs) == 0) == (n0 == 0 && pIdx(p) == i)
//@ inv (?g bool) g == (pIdx(p) > i)
//@ inv (?x error) x == nil

//@ func lemSnocCl(l []*RClause, i int)
//@ props C12
//@ unfold 1
//@ requires i >= 0
//@ ensures i >= len(l) || wfClauses(l, i) == (wfClauses(l[:len(l)-1], i) && l[len(l)-1] != nil && wfExpr(l[len(l)-1].expr))
//@ ensures i >= len(l) || rcptFreeRule(l, i) == (rcptFreeRule(l[:len(l)-1], i) && rcptFree(l[len(l)-1].expr))

//@ func (p *parser) pRClause() (err error)
//@ unfold 1
//@ props C11 C12 C26
//@ forall c *Context
//@ forall k string
//@ forall q int
//@ requires parserOK(p) && p.currule != nil && p.currule.requires >= pAny && len(p.currule.clauses) == 0
//@ pre in string = p.l.input
//@ pre i int = pIdx(p)
//@ pre req0 Phase = p.currule.requires
//@ pre res Action = p.currule.result
//@ ensures parserOK(p)
//@ ensures[C12] (err != nil) == (clausesEnd(in, i, res) < 0)
//@ ensures[C12] err != nil || pIdx(p) == clausesEnd(in, i, res) && len(p.currule.clauses) == nClauses(in, i, res)
//@ ensures err != nil || isEolTok(p.curtok.typ) && pIdx(p) > i
//@ ensures p.currule.requires >= pAny
//@ ensures[C12,C26] err != nil || wfClauses(p.currule.clauses, 0)
//@ ensures[C11] err != nil || p.currule.requires == maxPhase(req0, reqClauses(in, i, res))
//@ ensures[C11] err != nil || p.currule.requires >= pRto || rcptFreeRule(p.currule.clauses, 0)
//@ ensures[C12] err != nil || q < 0 || q >= len(p.currule.clauses) || clauseMeans(p.currule.clauses[q], in, clauseStart(in, i, res, q), k, c)
//@ modifies parser.curtok.typ@p, parser.curtok.val@p, parser.curtok.pos@p, ghLex.got@cast_ghLex(p.l), Rule.requires@p.currule, Rule.clauses@p.currule
//@ inv () parserOK(p) && pIdx(p) >= i && p.currule != nil && p.currule.requires >= pAny
//@ inv () clausesEnd(in, i, res) == clausesEnd(in, pIdx(p), res)
//@ inv () nClauses(in, i, res) == len(p.currule.clauses) + nClauses(in, pIdx(p), res)
//@ inv () maxPhase(req0, reqClauses(in, i, res)) == maxPhase(p.currule.requires, reqClauses(in, pIdx(p), res))
//@ inv () wfClauses(p.currule.clauses, 0)
//@ inv () p.currule.requires >= pRto || rcptFreeRule(p.currule.clauses, 0)
//@ inv () q < 0 || q >= len(p.currule.clauses) || clauseMeans(p.currule.clauses[q], in, clauseStart(in, i, res, q), k, c)
//@ inv () q < len(p.currule.clauses) || clauseStart(in, i, res, q) == clauseStart(in, pIdx(p), res, q - len(p.currule.clauses))
//@ step () lemSnocCl(p.currule.clauses, 0)
//@ finally lemSnocCl(p.currule.clauses, 0)

//@ func (p *parser) pRule() (r *Rule, err error)
//@ props C11 C12 C26
//@ unfold 1
//@ fold clauseMeans
//@ forall c *Context
//@ forall k string
//@ forall q int
//@ requires parserOK(p)
//@ pre in string = p.l.input
//@ pre i int = pIdx(p)
//@ ensures parserOK(p)
//@ ensures[C11,C12] (err != nil) == (ruleEnd(in, i) < 0)
//@ ensures err != nil || pIdx(p) >= i
//@ ensures[C12] err != nil || pIdx(p) == ruleEnd(in, i) && (r == nil) == (uTokTyp(in, i) == itemEOF)
//@ ensures err != nil || r != nil || pIdx(p) == i
//@ ensures[C12,C26] err != nil || r == nil || wfRule(r)
//@ ensures[C11] err != nil || r == nil || r.requires == ruleReq(in, i)
//@ ensures[C12] err != nil || r == nil || ruleMeans(r, in, i, q, k, c)
//@ modifies parser.curtok.typ@p, parser.curtok.val@p, parser.curtok.pos@p, parser.currule@p, ghLex.got@cast_ghLex(p.l)

//@ func (p *parser) pFile() (rules []*Rule, err error)
//@ props C10 C11 C12 C26
//@ unfold 1
//@ fold ruleMeans clauseMeans ruleEnd rcptFreeRule wfClauses
//@ forall c *Context
//@ forall k string
//@ forall q int
//@ forall n int
//@ requires parserOK(p)
//@ pre in string = p.l.input
//@ pre i int = pIdx(p)
//@ ensures[C10,C11,C12] (err != nil) == fileBad(in, i)
//@ ensures[C10,C12] err != nil || len(rules) == nRules(in, i)
//@ ensures[C12,C26] err != nil || wfRules(rules, 0)
//@ ensures[C11] err != nil || fileReq(rules, in, i, n)
//@ ensures[C10,C12] err != nil || fileMeans(rules, in, i, n, q, k, c)
//@ modifies parser.curtok.typ@p, parser.curtok.val@p, parser.curtok.pos@p, parser.currule@p, ghLex.got@cast_ghLex(p.l)
//@ inv () parserOK(p) && pIdx(p) >= i
//@ inv () fileBad(in, i) == fileBad(in, pIdx(p))
//@ inv (?rs []*Rule) nRules(in, i) == len(rs) + nRules(in, pIdx(p))
//@ inv (?rs []*Rule) wfRules(rs, 0)
//@ inv (?rs []*Rule) fileReq(rs, in, i, n)
//@ inv (?rs []*Rule) fileMeans(rs, in, i, n, q, k, c)
//@ inv (?rs []*Rule) n < len(rs) || ruleSrc(in, i, n) == ruleSrc(in, pIdx(p), n - len(rs)) && ruleInc(in, i, n) == ruleInc(in, pIdx(p), n - len(rs))
//@ step (?rs []*Rule, ^r0 []*Rule) lemWfApp(r0, rs[len(r0):], 0)
//@ finally lemWfLast(rules, 0)

//@ func lemWfLast(l []*Rule, i int)
//@ props C12
//@ unfold 1
//@ requires i >= 0
//@ ensures i >= len(l) || wfRules(l, i) == (wfRules(l[:len(l)-1], i) && wfRule(l[len(l)-1]))
