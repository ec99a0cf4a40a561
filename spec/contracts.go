package main

// Contracts. Every line starting with "//@ " is read by the verifier.

//@ frozen AndL NotN OrN AllN TlsN DNSblN MatchN matchSource DblNode OptionN RClause Result DNSResult

//@ func matchAddress(addr string, pat string) (r bool)
//@ props C01 C26
//@ returns specMatchAddress(addr, pat)
//@ inv (?p int) 0 <= p && p <= len(specDomain(addr))
//@ inv (?p int) !(strings.HasPrefix(pat, "@.") && strings.HasSuffix(specDomain(addr), pat[1:])) || len(specDomain(addr)) - len(pat) + 1 > p
//@ inv (?ts string) ts != "@" || pat != "@" && !(strings.HasPrefix(pat, "@.") && strings.HasSuffix(specDomain(addr), pat[1:]))

//@ func matchHost(host string, pat string) (r bool)
//@ props C02 C26
//@ returns specMatchHost(host, pat)
//@ inv (?p int) 0 <= p && p <= len(specHost(host, pat))
//@ inv (?p int, ?h string) h == "" || p < len(specHost(host, pat)) && h[0] == 0x2e && h == specHost(host, pat)[p:]
//@ inv (?p int, ?h string) !(strings.HasPrefix(pat, ".") && strings.HasSuffix(specHost(host, pat), pat)) || len(specHost(host, pat)) - len(pat) >= p && h != ""
//@ inv (?p int) !(strings.HasPrefix(pat, ".") && strings.HasSuffix(specHost(host, pat), pat)) || len(specHost(host, pat)) - len(pat) > p

//@ func matchIp(rip string, cidr string) (r bool)
//@ props C03 C26
//@ returns specMatchIp(rip, cidr)

//@ func matchFromHost(addr string, host string) (r bool)
//@ props C02 C26
//@ returns specMatchAddress(addr, "@" + host)

//@ mapinv map[string][]string (k string, v []string) v == nil || eqStrs(v, envList(k))
//@ mapinv map[string]*Result (k string, v *Result) v == nil || bool(*v) == envListed(k)
//@ mapinv map[string]*DNSResult (k string, v *DNSResult) v == nil || v.d == specValidDomain(k) && v.d >= dnsBad && v.d <= dnsGood

//@ func warnonce(format string, elems ...interface{})
//@ pure
//@ trusted

//@ func readList(rdr *bufio.Reader) (r []string, err error)
//@ props C24 C26
//@ requires rdr != nil && cast_ghReader(rdr).err != nil
//@ pre s0 string = cast_ghReader(rdr).rest
//@ pre e0 error = cast_ghReader(rdr).err
//@ ensures (err == nil) == (e0 == io.EOF)
//@ ensures err != nil || eqStrs(r, listFrom(s0))
//@ modifies ghReader.rest@cast_ghReader(rdr)
//@ inv (?a []string) eqStrs(append(a, listFrom(cast_ghReader(rdr).rest)...), listFrom(s0))

//@ func loadList(fname string) (r []string)
//@ props C24 C26
//@ ensures eqStrs(r, envList(fname))

//@ func (c *Context) getMatchList(a string) (r []string)
//@ props C01 C02 C03 C06 C24 C26
//@ requires c.files != nil
//@ forall k string
//@ pre old []string = c.files[k]
//@ ensures eqStrs(r, specList(a))
//@ ensures[C24] !isFileArg(a) || c.files[fileOfArg(a)] != nil && eqStrs(c.files[fileOfArg(a)], r)
//@ ensures[C24] old == nil || c.files[k] != nil && eqStrs(c.files[k], old)
//@ modifies M:map[string][]string@c.files

//@ func (c *Context) getDnsblRes(hn string) (r Result)
//@ props C22 C26
//@ requires c.dnsbl != nil
//@ ensures bool(r) == envListed(hn)
//@ modifies M:map[string]*Result@c.dnsbl

//@ func (c *Context) addDnsblHit(domain string)
//@ props C22 C26
//@ pre old []string = c.dnsblhit
//@ ensures !inStrs(old, 0, domain) || eqStrs(c.dnsblhit, old)
//@ ensures inStrs(old, 0, domain) || eqStrs(c.dnsblhit, append(old, domain))
//@ inv (?i int) inStrs(old, 0, domain) == inStrs(old, i, domain)
//@ modifies Context.dnsblhit@c

//@ func (c *Context) validDomain(domain string) (r DNSResult)
//@ props C04 C26
//@ requires c.domvalid != nil
//@ ensures r.d == specValidDomain(domain) && r.d >= dnsBad && r.d <= dnsGood
//@ modifies M:map[string]*DNSResult@c.domvalid

//@ func checkIP(domain string) (r dnsResult, err error)
//@ props C21 C26
//@ ensures r == specCheckIP(domain)
//@ inv (?i int, l []net.IP) addrsOK(l, 0) == addrsOK(l, i)

//@ func ValidDomain(domain string) (r dnsResult, err error)
//@ props C21 C26
//@ ensures r == specValidDomain(domain)
//@ ensures r >= dnsBad && r <= dnsGood
//@ inv (?i int, l []*net.MX) bogusMX(l, 0) == bogusMX(l, i)
//@ inv (?i int, l []*net.MX) mxOK(l, i)
//@ inv (?v dnsResult) dnsUndef <= v && v <= dnsGood
//@ inv (?i int, ?v dnsResult) i <= 0 || v >= dnsBad
//@ inv (?i int, ?v dnsResult, l []*net.MX) bestMX(l, 0) == maxRes(v, bestMX(l, i))

//@ func isTemporary(err error) (r bool)
//@ props C21 C26
//@ returns tempErr(err)

//@ func dnsGetter(c *Context) (o Option)
//@ props C05 C26
//@ requires c != nil && c.trans != nil && c.trans.rdns != nil
//@ returns specDnsOpts(c.trans.rdns)

//@ func heloGetter(c *Context) (o Option)
//@ props C05 C26
//@ requires c != nil && c.trans != nil
//@ returns specHeloOpts(c.helocmd, c.heloname, c.trans.rip, c.trans.lip)

//@ func getAddrOpts(a string, c *Context) (o Option)
//@ props C04 C26
//@ requires c != nil && c.domvalid != nil
//@ returns specAddrOpts(a)
//@ modifies Context.domerr@c, M:map[string]*DNSResult@c.domvalid

//@ func (m *MatchN) Eval(c *Context) (ret Result)
//@ props C01 C02 C03 C06 C26
//@ requires m != nil && m.getter != nil && m.matcher != nil && ctxOK(c)
//@ pre pl []string = specList(m.arg)
//@ pre els []string = m.getter(c)
//@ inv (?i int) anyPat(pl, 0, els, m.matcher) == anyPat(pl, i, els, m.matcher)
//@ inv (?j int, i int, p string) anyPat(pl, 0, els, m.matcher) == (anyElem(els, j, p, m.matcher) || anyPat(pl, i+1, els, m.matcher))

//@ func (a *AndL) Eval(c *Context) (ret Result)
//@ props C06 C26
//@ requires wfExpr(a) && ctxOK(c)
//@ pre miss0 bool = c.rulemiss
//@ pre l []Expr = a.nodes
//@ inv (?i int) semAnd(l, 0, c) == semAnd(l, i, c)
//@ inv (?i int) (miss0 || missAnd(l, 0, c)) == (c.rulemiss || missAnd(l, i, c))
//@ inv (?i int) wfList(l, i)

//@ iface func (e Expr) Eval(c *Context) (ret Result)
//@ props C01 C02 C03 C04 C05 C06 C22 C26
//@ requires wfExpr(e) && ctxOK(c)
//@ pre miss0 bool = c.rulemiss
//@ ensures bool(ret) == semExpr(e, c)
//@ ensures c.rulemiss == (miss0 || missExpr(e, c))
//@ modifies Context.rulemiss@c, Context.dnsblhit@c, Context.domerr@c, M:map[string][]string@c.files, M:map[string]*Result@c.dnsbl, M:map[string]*DNSResult@c.domvalid

//@ func (a *AllN) Eval(c *Context) (ret Result)
//@ props C06 C26

//@ func (t *TlsN) Eval(c *Context) (ret Result)
//@ props C06 C26

//@ func (n *NotN) Eval(c *Context) (ret Result)
//@ props C06 C26

//@ func (o *OrN) Eval(c *Context) (ret Result)
//@ props C06 C26

//@ func (o *OptionN) Eval(c *Context) (ret Result)
//@ props C04 C05 C26

//@ func (m *matchSource) Eval(c *Context) (ret Result)
//@ props C02 C26

//@ func (d *DNSblN) Eval(c *Context) (ret Result)
//@ props C22 C26

//@ func lemFirst(names []string, i int, domain string)
//@ props C22
//@ ensures !anyListed(names, i, domain) || envListed(firstListed(names, i, domain) + "." + domain)

//@ func (d *DblNode) Eval(c *Context) (ret Result)
//@ props C22 C26
//@ requires d != nil && ctxOK(c)
//@ witness k string = dblName(d.domain, d.src, c)
//@ apply lemFirst(c.trans.rdns.verified, 0, d.domain)
//@ apply lemFirst(c.trans.rdns.nofwd, 0, d.domain)
//@ apply lemFirst(c.trans.rdns.inconsist, 0, d.domain)
//@ localmap map[string]struct{} (x string) !envListed(x + "." + d.domain) || semDbl(d.domain, d.src, c)
//@ inv (?i int, l []string) !anyListed(l, i, d.domain) || anyListed(l, 0, d.domain)
//@ inv (?i int, l []string, m map[string]struct{}) hasName(m, k) || !(anyListed(l, 0, d.domain) && firstListed(l, 0, d.domain) == k) || anyListed(l, i, d.domain) && firstListed(l, i, d.domain) == k
//@ inv (l []string, m map[string]struct{}) !(anyListed(l, 0, d.domain) && firstListed(l, 0, d.domain) == k) || hasName(m, k)
//@ inv (m map[string]struct{}) !(d.src&(oEhlo|oHelo) != 0 && c.heloname != "" && k == c.heloname) || hasName(m, k)
//@ inv (vis visited k, ?r Result) !vis || !envListed(k + "." + d.domain) || bool(r)
//@ inv (?r Result) !bool(r) || semDbl(d.domain, d.src, c)

//@ func lemFree(e Expr, c *Context, rcpt string)
//@ props C06 C07 C09
//@ requires c != nil && wfExpr(e)
//@ unfold 1
//@ ensures !rcptFree(e) || semExpr(e, c) == semExprAt(e, c, rcpt) && missExpr(e, c) == missExprAt(e, c, rcpt)

//@ func lemFreeList(l []Expr, i int, c *Context, rcpt string)
//@ props C06 C07 C09
//@ requires c != nil && wfList(l, i)
//@ ensures !rcptFreeList(l, i) || semAnd(l, i, c) == semAndAt(l, i, c, rcpt) && missAnd(l, i, c) == missAndAt(l, i, c, rcpt)

//@ func lemFreeRule(cl []*RClause, i int, c *Context, rcpt string)
//@ props C06 C07 C09
//@ requires c != nil && wfClauses(cl, i)
//@ ensures !rcptFreeRule(cl, i) || ruleIdx(cl, i, c) == ruleIdxAt(cl, i, c, rcpt) && ruleMiss(cl, i, c) == ruleMissAt(cl, i, c, rcpt)

//@ func (r *Rule) check(c *Context) (ret Result)
//@ props C06 C07 C09 C26
//@ requires wfClauses(r.clauses, 0) && ctxOK(c) && c.withprops != nil
//@ forall k string
//@ pre cl []*RClause = r.clauses
//@ pre h int = ruleIdx(cl, 0, c)
//@ pre w0 string = c.withprops[k]
//@ pre h0 bool = hasKey(c.withprops, k)
//@ ensures bool(ret) == (ruleIdx(cl, 0, c) >= 0)
//@ ensures ruleIdx(cl, 0, c) < len(cl)
//@ ensures c.rulemiss == ruleMiss(cl, 0, c)
//@ ensures !bool(ret) || !bool(c.rulemiss)
//@ ensures h >= 0 || c.withprops[k] == w0 && hasKey(c.withprops, k) == h0
//@ ensures h < 0 || sameMap(cl[h].withs, c.withprops) || hasKey(c.withprops, k) == (h0 || hasKey(cl[h].withs, k))
//@ ensures h < 0 || sameMap(cl[h].withs, c.withprops) || hasKey(cl[h].withs, k) || c.withprops[k] == w0
//@ ensures h < 0 || sameMap(cl[h].withs, c.withprops) || !hasKey(cl[h].withs, k) || c.withprops[k] == cl[h].withs[k]
//@ inv (?i int) ruleIdx(cl, 0, c) == ruleIdx(cl, i, c)
//@ inv (?i int) ruleMiss(cl, 0, c) == ruleMiss(cl, i, c)
//@ inv (?i int) wfClauses(cl, i)
//@ inv () !bool(c.rulemiss)
//@ inv (vis visited k, m map[string]string) !vis || hasKey(m, k)
//@ inv (vis visited k, m map[string]string) !vis || hasKey(c.withprops, k) && c.withprops[k] == m[k]
//@ inv (vis visited k, m map[string]string) vis || c.withprops[k] == w0 && hasKey(c.withprops, k) == h0
//@ use lemFreeRule(r.clauses, 0, c, "")
//@ modifies Context.rulemiss@c, Context.dnsblhit@c, Context.domerr@c, M:map[string][]string@c.files, M:map[string]*Result@c.dnsbl, M:map[string]*DNSResult@c.domvalid, M:map[string]string@c.withprops

//@ func ruleForEachRcpt(r *Rule, c *Context) (ret Result)
//@ props C06 C07 C09 C26
//@ requires r != nil && wfClauses(r.clauses, 0) && ctxOK(c) && c.withprops != nil
//@ forall k string
//@ pre cl []*RClause = r.clauses
//@ pre l []string = c.trans.rcptto
//@ pre h int = rcptHit(cl, l, c)
//@ pre w0 string = c.withprops[k]
//@ pre h0 bool = hasKey(c.withprops, k)
//@ ensures bool(ret) == (h >= 0)
//@ ensures h < len(cl)
//@ ensures h >= 0 || pre_rcptIdx(cl, l, 0, c) < 0 || bool(c.rulemiss)
//@ ensures h < 0 || !bool(c.rulemiss)
//@ ensures h >= 0 || c.withprops[k] == w0 && hasKey(c.withprops, k) == h0
//@ ensures h < 0 || sameMap(cl[h].withs, c.withprops) || hasKey(c.withprops, k) == (h0 || hasKey(cl[h].withs, k))
//@ ensures h < 0 || sameMap(cl[h].withs, c.withprops) || hasKey(cl[h].withs, k) || c.withprops[k] == w0
//@ ensures h < 0 || sameMap(cl[h].withs, c.withprops) || !hasKey(cl[h].withs, k) || c.withprops[k] == cl[h].withs[k]
//@ inv (?i int) pre_rcptIdx(cl, l, 0, c) == pre_rcptIdx(cl, l, i, c)
//@ inv () c.withprops[k] == w0 && hasKey(c.withprops, k) == h0
//@ modifies Context.rcptto@c, Context.rulemiss@c, Context.dnsblhit@c, Context.domerr@c, M:map[string][]string@c.files, M:map[string]*Result@c.dnsbl, M:map[string]*DNSResult@c.domvalid, M:map[string]string@c.withprops

//@ func Decide(ph Phase, evt smtpd.EventInfo, c *Context) (ret Action)
//@ props C06 C07 C08 C09 C26
//@ requires ctxOK(c) && wfRules(c.ruleset, 0) && ph >= pConnect && ph <= pMessage && c.defresult <= aReject
//@ forall k string
//@ pre rs []*Rule = c.ruleset
//@ pre r0 string = c.rcptto
//@ pre d Action = pre_decide(rs, 0, ph, evt, c)
//@ pre def bool = pre_deferred(ph, c)
//@ pre dr Action = c.defresult
//@ pre dw string = c.defprops[k]
//@ pre dh bool = hasKey(c.defprops, k)
//@ pre dp map[string]string = c.defprops
//@ ensures ret >= aNoresult && ret <= aReject && c.defresult <= aReject
//@ ensures[C08] !def || ret == dr
//@ ensures[C07] def || ret == d || ph == pMfrom && evt.Arg == "" && d > aAccept && ret == aAccept
//@ ensures[C08] def || !(ph == pMfrom && evt.Arg == "" && d > aAccept) || ret == aAccept && c.defresult == d
//@ ensures[C08] !def || c.defresult == dr && sameMap(c.defprops, dp)
//@ ensures[C08] def || (ph == pMfrom && evt.Arg == "" && d > aAccept) || c.defresult < aAccept
//@ ensures[C08,C09] !def || hasKey(c.withprops, k) == dh && c.withprops[k] == dw
//@ ensures[C09] def || (ph == pMfrom && evt.Arg == "" && d > aAccept) || hasKey(c.withprops, k) == pre_has(rs, 0, ph, evt, c, k, false)
//@ ensures[C09] def || (ph == pMfrom && evt.Arg == "" && d > aAccept) || c.withprops[k] == pre_prop(rs, 0, ph, evt, c, k, "")
//@ ensures[C08,C09] def || !(ph == pMfrom && evt.Arg == "" && d > aAccept) || !hasKey(c.withprops, k) && hasKey(c.defprops, k) == pre_has(rs, 0, ph, evt, c, k, false)
//@ ensures[C08,C09] def || !(ph == pMfrom && evt.Arg == "" && d > aAccept) || c.defprops[k] == pre_prop(rs, 0, ph, evt, c, k, "")
//@ inv (?i int) pre_decide(rs, 0, ph, evt, c) == pre_decide(rs, i, ph, evt, c)
//@ inv (?i int) pre_has(rs, 0, ph, evt, c, k, false) == pre_has(rs, i, ph, evt, c, k, hasKey(c.withprops, k))
//@ inv (?i int) pre_prop(rs, 0, ph, evt, c, k, "") == pre_prop(rs, i, ph, evt, c, k, c.withprops[k])
//@ inv (?i int) wfRules(rs, i)
//@ inv () ph >= pRto || c.rcptto == r0
//@ inv () ph != pRto || c.rcptto == evt.Arg
//@ modifies Context.helocmd@c, Context.heloname@c, Context.from@c, Context.rcptto@c, Context.defresult@c, Context.defprops@c, Context.defdnsblhit@c, Context.withprops@c, Context.rulemiss@c, Context.dnsblhit@c, Context.domerr@c, M:map[string][]string@c.files, M:map[string]*Result@c.dnsbl, M:map[string]*DNSResult@c.domvalid

//@ func newHeloNode(arg string) (e Expr)
//@ props C02 C26
//@ forall a string
//@ forall p string
//@ forall c *Context
//@ ensures wfExpr(e) && nodeArg(e, arg)
//@ ensures nodeMatches(e, a, p) == specMatchHost(a, p)
//@ ensures !ctxOK(c) || eqStrs(nodeGets(e, c), []string{c.heloname})
//@ ensures rcptFree(e)
//@ finally lemLikeIntro(nodeMatcher(e), kHost); lemKind(specList(nodeArgOf(e)), 0, nodeGets(e, c), nodeMatcher(e), kHost)
//@ ensures !ctxOK(c) || semExpr(e, c) == anyKind(specList(arg), 0, []string{c.heloname}, kHost)
//@ ensures missExpr(e, c) == (len(specList(arg)) == 0)

//@ func newFromNode(arg string) (e Expr)
//@ props C01 C26
//@ forall a string
//@ forall p string
//@ forall c *Context
//@ ensures wfExpr(e) && nodeArg(e, arg)
//@ ensures nodeMatches(e, a, p) == specMatchAddress(a, p)
//@ ensures !ctxOK(c) || eqStrs(nodeGets(e, c), []string{c.from})
//@ ensures rcptFree(e)
//@ finally lemLikeIntro(nodeMatcher(e), kAddr); lemKind(specList(nodeArgOf(e)), 0, nodeGets(e, c), nodeMatcher(e), kAddr)
//@ ensures !ctxOK(c) || semExpr(e, c) == anyKind(specList(arg), 0, []string{c.from}, kAddr)
//@ ensures missExpr(e, c) == (len(specList(arg)) == 0)

//@ func newToNode(arg string) (e Expr)
//@ props C01 C26
//@ forall a string
//@ forall p string
//@ forall c *Context
//@ ensures wfExpr(e) && nodeArg(e, arg)
//@ ensures nodeMatches(e, a, p) == specMatchAddress(a, p)
//@ ensures !ctxOK(c) || eqStrs(nodeGets(e, c), []string{c.rcptto})
//@ finally lemLikeIntro(nodeMatcher(e), kAddr); lemKind(specList(nodeArgOf(e)), 0, nodeGets(e, c), nodeMatcher(e), kAddr)
//@ ensures !ctxOK(c) || semExpr(e, c) == anyKind(specList(arg), 0, []string{c.rcptto}, kAddr)
//@ ensures missExpr(e, c) == (len(specList(arg)) == 0)

//@ func newIPNode(arg string) (e Expr)
//@ props C03 C26
//@ forall a string
//@ forall p string
//@ forall c *Context
//@ ensures wfExpr(e) && nodeArg(e, arg)
//@ ensures nodeMatches(e, a, p) == specMatchIp(a, p)
//@ ensures !ctxOK(c) || eqStrs(nodeGets(e, c), []string{c.trans.rip})
//@ ensures rcptFree(e)
//@ finally lemLikeIntro(nodeMatcher(e), kIp); lemKind(specList(nodeArgOf(e)), 0, nodeGets(e, c), nodeMatcher(e), kIp)
//@ ensures !ctxOK(c) || semExpr(e, c) == anyKind(specList(arg), 0, []string{c.trans.rip}, kIp)
//@ ensures missExpr(e, c) == (len(specList(arg)) == 0)

//@ func newHostNode(arg string) (e Expr)
//@ props C02 C26
//@ forall a string
//@ forall p string
//@ forall c *Context
//@ ensures wfExpr(e) && nodeArg(e, arg)
//@ ensures nodeMatches(e, a, p) == specMatchHost(a, p)
//@ ensures !ctxOK(c) || eqStrs(nodeGets(e, c), c.trans.rdns.verified)
//@ ensures rcptFree(e)
//@ finally lemLikeIntro(nodeMatcher(e), kHost); lemKind(specList(nodeArgOf(e)), 0, nodeGets(e, c), nodeMatcher(e), kHost)
//@ ensures !ctxOK(c) || semExpr(e, c) == anyKind(specList(arg), 0, c.trans.rdns.verified, kHost)
//@ ensures missExpr(e, c) == (len(specList(arg)) == 0)

//@ func newSourceNode(arg string) (e Expr)
//@ props C02 C26
//@ forall a string
//@ forall p string
//@ forall c *Context
//@ ensures wfExpr(e) && rcptFree(e) && srcNode(e)
//@ ensures nodeArg(srcPart(e, 0), arg) && nodeArg(srcPart(e, 1), arg) && nodeArg(srcPart(e, 2), arg)
//@ ensures nodeMatches(srcPart(e, 0), a, p) == specMatchHost(a, p)
//@ ensures nodeMatches(srcPart(e, 1), a, p) == specMatchHost(a, p)
//@ ensures nodeMatches(srcPart(e, 2), a, p) == specMatchAddress(a, "@"+p)
//@ ensures !ctxOK(c) || eqStrs(nodeGets(srcPart(e, 0), c), c.trans.rdns.verified)
//@ ensures !ctxOK(c) || eqStrs(nodeGets(srcPart(e, 1), c), []string{c.heloname})
//@ ensures !ctxOK(c) || eqStrs(nodeGets(srcPart(e, 2), c), []string{c.from})
//@ finally lemLikeIntro(nodeMatcher(srcPart(e, 2)), kFromHost); lemKind(specList(nodeArgOf(srcPart(e, 2))), 0, nodeGets(srcPart(e, 2), c), nodeMatcher(srcPart(e, 2)), kFromHost)
//@ ensures !ctxOK(c) || semExpr(e, c) == (anyKind(specList(arg), 0, c.trans.rdns.verified, kHost) || anyKind(specList(arg), 0, []string{c.heloname}, kHost) || anyKind(specList(arg), 0, []string{c.from}, kFromHost))
//@ ensures missExpr(e, c) == (len(specList(arg)) == 0)

//@ func newDblNode(typ Option, arg string) (e Expr)
//@ props C22 C26
//@ forall c *Context
//@ ensures !ctxOK(c) || semExpr(e, c) == semDbl(arg, typ, c)
//@ ensures !missExpr(e, c)
//@ ensures wfExpr(e) && rcptFree(e) && isDbl(e, typ, arg)

//@ func newDnsOpt(o Option) (e Expr)
//@ props C05 C26
//@ forall c *Context
//@ ensures wfExpr(e) && rcptFree(e) && optNode(e, o)
//@ ensures !ctxOK(c) || optGets(e, c) == specDnsOpts(c.trans.rdns)
//@ ensures !ctxOK(c) || semExpr(e, c) == (o & specDnsOpts(c.trans.rdns) != 0)
//@ ensures !missExpr(e, c)

//@ func newHeloOpt(o Option) (e Expr)
//@ props C05 C26
//@ forall c *Context
//@ ensures wfExpr(e) && rcptFree(e) && optNode(e, o)
//@ ensures !ctxOK(c) || optGets(e, c) == specHeloOpts(c.helocmd, c.heloname, c.trans.rip, c.trans.lip)
//@ ensures !ctxOK(c) || semExpr(e, c) == (o & specHeloOpts(c.helocmd, c.heloname, c.trans.rip, c.trans.lip) != 0)
//@ ensures !missExpr(e, c)

//@ func newFromHasOpt(o Option) (e Expr)
//@ props C04 C26
//@ forall c *Context
//@ ensures wfExpr(e) && rcptFree(e) && optNode(e, o)
//@ ensures !ctxOK(c) || optGets(e, c) == specAddrOpts(c.from)
//@ ensures !ctxOK(c) || semExpr(e, c) == (o & specAddrOpts(c.from) != 0)
//@ ensures !missExpr(e, c)

//@ func newToHasOpt(o Option) (e Expr)
//@ props C04 C26
//@ forall c *Context
//@ ensures wfExpr(e) && optNode(e, o)
//@ ensures !ctxOK(c) || optGets(e, c) == specAddrOpts(c.rcptto)
//@ ensures !ctxOK(c) || semExpr(e, c) == (o & specAddrOpts(c.rcptto) != 0)
//@ ensures !missExpr(e, c)

//@ func LookupAddrVerified(ip string) (r *rDNSResults, err error)
//@ props C20 C26
//@ ensures r != nil
//@ ensures eqStrs(r.verified, ofClass(specNames(ip), len(specNames(ip)), net.ParseIP(ip), 0))
//@ ensures eqStrs(r.nofwd, ofClass(specNames(ip), len(specNames(ip)), net.ParseIP(ip), 1))
//@ ensures eqStrs(r.inconsist, ofClass(specNames(ip), len(specNames(ip)), net.ParseIP(ip), 2))
//@ inv (?i int, r *rDNSResults, l []string) eqStrs(r.verified, ofClass(l, i, net.ParseIP(ip), 0))
//@ inv (?i int, r *rDNSResults, l []string) eqStrs(r.nofwd, ofClass(l, i, net.ParseIP(ip), 1))
//@ inv (?i int, r *rDNSResults, l []string) eqStrs(r.inconsist, ofClass(l, i, net.ParseIP(ip), 2))
//@ inv (?i int, l []net.IP) anyIP(l, 0, net.ParseIP(ip)) == anyIP(l, i, net.ParseIP(ip))

//@ func (d *destMap) find(nc net.Conn) (r *perDest)
//@ props C23 C26
//@ requires nc != nil && nc.LocalAddr() != nil && (d == nil || destOK(*d, 0))
//@ pre l []*perDest = *d
//@ ensures d != nil || r == nil
//@ ensures d == nil || r == destFirst(l, 0, nc.LocalAddr().String())
//@ sets ghDest = r
//@ inv (?i int) destFirst(l, 0, nc.LocalAddr().String()) == destFirst(l, i, nc.LocalAddr().String())
//@ inv (?i int) destOK(l, i)

//@ func loadCerts(certs string, keys string) (res []tls.Certificate, err error)
//@ props C23 C26
//@ ensures (err == nil) == certsOK(certs, keys)
//@ ensures err != nil || eqCerts(res, certsFrom(strings.Split(certs, ","), strings.Split(keys, ","), 0))
//@ inv (?i int, cl []string, kl []string) certsBad(cl, kl, 0) == certsBad(cl, kl, i)
//@ inv (?i int, cl []string, kl []string, ?r []tls.Certificate) eqCerts(append(r, certsFrom(cl, kl, i)...), certsFrom(cl, kl, 0))

//@ func lemDestSnoc(l []*perDest, i int)
//@ props C23
//@ ensures i < 0 || len(l) == 0 || !destOK(l[:len(l)-1], i) || l[len(l)-1] == nil || destOK(l, i)

//@ func readConnFile(rdr *bufio.Reader) (d *destMap, err error)
//@ props C23 C26
//@ requires rdr != nil && cast_ghReader(rdr).err != nil
//@ forall n int
//@ pre s0 string = cast_ghReader(rdr).rest
//@ pre e0 error = cast_ghReader(rdr).err
//@ ensures (err == nil) == (e0 == io.EOF && connOK(s0))
//@ ensures (err == nil) == (d != nil)
//@ ensures d == nil || destOK(*d, 0) && len(*d) == connCount(s0)
//@ ensures d == nil || n < 0 || n >= len(*d) || destIs((*d)[n], connFields(connNth(s0, n)))
//@ modifies ghReader.rest@cast_ghReader(rdr)
//@ unfold 1
//@ step (?l destMap) lemDestSnoc(l, 0)
//@ inv () connOK(s0) == connOK(cast_ghReader(rdr).rest)
//@ inv (?l destMap) destOK(l, 0)
//@ inv (?l destMap) connCount(s0) == len(l) + connCount(cast_ghReader(rdr).rest)
//@ inv (?l destMap) n < 0 || n >= len(l) || destIs(l[n], connFields(connNth(s0, n)))
//@ inv (?l destMap) n < len(l) || connNth(s0, n) == connNth(cast_ghReader(rdr).rest, n-len(l))
//@ inv (f []string, ?i int, ?v string) connVal(f, 1, "hostname", "") == connVal(f, i+1, "hostname", v)
//@ inv (f []string, ?i int, ?v string) connVal(f, 1, "cert", "") == connVal(f, i+1, "cert", v)
//@ inv (f []string, ?i int, ?v string) connVal(f, 1, "key", "") == connVal(f, i+1, "key", v)
//@ inv (f []string, ?i int) connKeysOK(f, 1) == connKeysOK(f, i+1)

//@ func loadConnFile(fname string) (d *destMap, err error)
//@ props C23 C26
//@ forall n int
//@ ensures (err == nil) == (uOpenErr(fname) == nil && uFileErr(fname) == io.EOF && connOK(uFileData(fname)))
//@ ensures (err == nil) == (d != nil)
//@ ensures d == nil || destOK(*d, 0) && len(*d) == connCount(uFileData(fname))
//@ ensures d == nil || n < 0 || n >= len(*d) || destIs((*d)[n], connFields(connNth(uFileData(fname), n)))
//@ sets ghDM = d

//@ func tlsName(cert *x509.Certificate) (n string)
//@ props C15 C26
//@ requires cert != nil
//@ returns specTLSName(cert)

//@ func tlsTryVerifyConnection(state tls.ConnectionState) (err error)
//@ props C15 C26
//@ requires len(state.VerifiedChains) > 0 || len(state.PeerCertificates) > 0 && state.PeerCertificates[0] != nil
//@ ensures len(state.VerifiedChains) == 0 || err == nil

//@ func tlsClientLog(state tls.ConnectionState, logger *smtpLogger)
//@ props C26
//@ requires logOK(logger) && tlsStateOK(state)
//@ modifies ghWriter.all@cast_ghWriter(logger.writer)

//@ func yakLog(dnlog io.Writer, trans *smtpTransaction, prefix string, what string)
//@ props C26
//@ requires trans != nil && trans.laddr != nil && isPlain(dnlog)
//@ modifies ghSink.out@cast_ghSink(dnlog), ghSink.n@cast_ghSink(dnlog)

//@ func updateTimeOf(what string, laddr string)
//@ props C26

//@ func Parse(input string) (rules []*Rule, err error)
//@ props C11 C12 C26
//@ forall c *Context
//@ forall k string
//@ forall q int
//@ forall n int
//@ ensures[C11,C12] (err != nil) == fileBad(input, 0)
//@ ensures[C12] err != nil || len(rules) == nRules(input, 0)
//@ ensures[C12,C26] err != nil || wfRules(rules, 0)
//@ ensures[C11] err != nil || fileReq(rules, input, 0, n)
//@ ensures[C12] err != nil || fileMeans(rules, input, 0, n, q, k, c)
//@ names eqRules(rules, uParse(input)) && err == uParseErr(input)
//@ pure

//@ func loadRules(fname string) (rules []*Rule, err error)
//@ props C10 C26
//@ ensures (err == nil) == (fname != "" && fileOK(fname))
//@ ensures err != nil || eqRules(rules, fileRules(fname))
//@ ensures err != nil || wfRules(rules, 0)

//@ func lemParse(text string)
//@ ensures uParseErr(text) != nil || wfRules(uParse(text), 0)
//@ trusted

//@ func lemWfShift(a []*Rule, b []*Rule, j int)
//@ props C10
//@ requires j >= 0
//@ ensures wfRules(append(a, b...), len(a) + j) == wfRules(b, j)

//@ func lemWfApp(a []*Rule, b []*Rule, i int)
//@ props C10
//@ requires i >= 0 && i <= len(a)
//@ ensures !wfRules(a, i) || !wfRules(b, 0) || wfRules(append(a, b...), i)

//@ func lemWfFiles(l []string, i int)
//@ props C10
//@ requires i >= 0
//@ ensures !filesOK(l, i) || wfRules(filesRules(l, i), 0)

//@ func setupRules(baserules []*Rule) (rules []*Rule, ok bool)
//@ props C10 C26
//@ noalias
//@ ensures ok == filesOK(rulefiles, 0)
//@ ensures !ok || eqRules(rules, append(baserules, filesRules(rulefiles, 0)...))
//@ ensures ok || eqRules(rules, stallall)
//@ requires wfRules(baserules, 0) && wfRules(stallall, 0)
//@ ensures wfRules(rules, 0)
//@ apply lemWfFiles(rulefiles, 0)
//@ apply lemWfApp(baserules, filesRules(rulefiles, 0), 0)
//@ inv (?i int) filesOK(rulefiles, 0) == filesOK(rulefiles, i)
//@ inv (?i int, ?r []*Rule) eqRules(append(r, filesRules(rulefiles, i)...), append(baserules, filesRules(rulefiles, 0)...))
//@ inv (?e error) e == nil

//@ guarded ipMap.ips ipMap.stats M:map[string]*ipEnt ipEnt.when ipEnt.count by ipMap.Mutex

//@ func (i *ipMap) Add(ip string, ttl time.Duration) (n int)
//@ props C18 C19 C26
//@ requires i != nil && i.ips != nil && !held_ipMap_Mutex(i)
//@ forall k string
//@ pre c0 int = liveCount(i, ip, ttl)
//@ pre e0 *ipEnt = i.ips[ip]
//@ pre ek *ipEnt = i.ips[k]
//@ pre ck int = entCount(i.ips[k])
//@ pre wk time.Time = entWhen(i.ips[k])
//@ ensures !held_ipMap_Mutex(i)
//@ ensures ip != "" || n == 0
//@ pre ya int = ghYAdd
//@ pre na int = ghNAdd
//@ sets ghYAdd = ya + oneIf(i == yakkers)
//@ sets ghNAdd = na + oneIf(i == notls)
//@ ensures ip == "" || n == c0 + 1 && i.ips[ip] != nil && i.ips[ip].count == c0 + 1 && i.ips[ip].when == ghNow
//@ ensures ip != "" && (k == ip || ek != nil && ek == e0) || entSame(i, k, ek, ck, wk)
//@ modifies ipMap.stats.Adds@i, ipMap.stats.AddsNew@i, ipMap.stats.AddsExpired@i, M:map[string]*ipEnt@i.ips, ipEnt.count@i.ips[ip], ipEnt.when@i.ips[ip]

//@ func (i *ipMap) Set(ip string, ttl time.Duration, cnt int) (n int)
//@ props C18 C26
//@ requires i != nil && i.ips != nil && !held_ipMap_Mutex(i)
//@ forall k string
//@ pre c0 int = liveCount(i, ip, ttl)
//@ pre e0 *ipEnt = i.ips[ip]
//@ pre ek *ipEnt = i.ips[k]
//@ pre ck int = entCount(i.ips[k])
//@ pre wk time.Time = entWhen(i.ips[k])
//@ ensures !held_ipMap_Mutex(i)
//@ ensures ip != "" || n == 0
//@ pre ys int = ghYSet
//@ sets ghYSet = ys + oneIf(i == yakkers)
//@ ensures ip == "" || n == c0 && i.ips[ip] != nil && i.ips[ip].count == cnt && i.ips[ip].when == ghNow
//@ ensures ip != "" && (k == ip || ek != nil && ek == e0) || entSame(i, k, ek, ck, wk)
//@ modifies ipMap.stats.Sets@i, ipMap.stats.AddsNew@i, ipMap.stats.AddsExpired@i, M:map[string]*ipEnt@i.ips, ipEnt.count@i.ips[ip], ipEnt.when@i.ips[ip]

//@ func (i *ipMap) Del(ip string)
//@ props C18 C26
//@ requires i != nil && i.ips != nil && !held_ipMap_Mutex(i)
//@ forall k string
//@ pre ek *ipEnt = i.ips[k]
//@ pre ck int = entCount(i.ips[k])
//@ pre wk time.Time = entWhen(i.ips[k])
//@ ensures !held_ipMap_Mutex(i)
//@ pre yd int = ghYDel
//@ sets ghYDel = yd + oneIf(i == yakkers)
//@ ensures ip == "" || i.ips[ip] == nil
//@ ensures ip != "" && k == ip || entSame(i, k, ek, ck, wk)
//@ modifies ipMap.stats.Dels@i, M:map[string]*ipEnt@i.ips

//@ func (i *ipMap) Lookup(ip string, ttl time.Duration) (hit bool, n int)
//@ props C18 C19 C26
//@ requires i != nil && i.ips != nil && !held_ipMap_Mutex(i)
//@ forall k string
//@ pre live bool = isLive(i, ip, ttl)
//@ pre c0 int = liveCount(i, ip, ttl)
//@ pre ek *ipEnt = i.ips[k]
//@ pre ck int = entCount(i.ips[k])
//@ pre wk time.Time = entWhen(i.ips[k])
//@ ensures !held_ipMap_Mutex(i)
//@ ensures hit == live && n == c0
//@ ensures k == ip || entSame(i, k, ek, ck, wk)
//@ ensures live && entSame(i, ip, i.ips[ip], c0, i.ips[ip].when) || !live && i.ips[ip] == nil
//@ modifies ipMap.stats.Lookup@i, ipMap.stats.LookupHit@i, ipMap.stats.LookupExpired@i, M:map[string]*ipEnt@i.ips

//@ func (i *ipMap) Stats() (r interface{})
//@ props C18 C26
//@ requires i != nil && !held_ipMap_Mutex(i)
//@ ensures !held_ipMap_Mutex(i)
//@ modifies ipMap.stats.Size@i


//@ func genHash(b []byte) (r string)
//@ props C15 C26
//@ returns specHash(string(b))

//@ func getHashes(trans *smtpTransaction) (h string, bh string)
//@ props C15 C26
//@ requires trans != nil
//@ ensures h == specHash(trans.data) && bh == specBodyHash(trans.data)

//@ func msgDetails(prefix string, trans *smtpTransaction) (m []byte, mhash string)
//@ props C15 C26
//@ requires transOK(trans)
//@ ensures string(m) == specIDLine(prefix, trans) + specMeta(trans)
//@ ensures mhash == specHash(specMeta(trans))
//@ inv (?i int, w io.Writer) cast_ghW(w).all + wordsFrom(trans.rdns.verified, i) == specRemote(trans) + "remote-dns" + wordsFrom(trans.rdns.verified, 0)
//@ inv (?i int, w io.Writer) cast_ghW(w).all + wordsFrom(trans.rdns.nofwd, i) == specRemote(trans) + dnsLine("remote-dns", trans.rdns.verified) + "remote-dns-nofwd" + wordsFrom(trans.rdns.nofwd, 0)
//@ inv (?i int, w io.Writer) cast_ghW(w).all + wordsFrom(trans.rdns.inconsist, i) == specRemote(trans) + dnsLine("remote-dns", trans.rdns.verified) + dnsLine("remote-dns-nofwd", trans.rdns.nofwd) + "remote-dns-inconsist" + wordsFrom(trans.rdns.inconsist, 0)
//@ inv (?i int, w *bufio.Writer) cast_ghWriter(w).all + toLines(trans.rcptto, i) + specTail(trans) == specMeta(trans)

//@ func logMessage(prefix string, trans *smtpTransaction, logf io.Writer)
//@ props C14 C15 C17 C26
//@ requires transOK(trans)
//@ pre o0 string = cast_ghSink(logf).out
//@ ensures logf == nil || cast_ghSink(logf).out == o0 + specLogLine(prefix, trans)
//@ modifies ghSink.out@cast_ghSink(logf), ghSink.n@cast_ghSink(logf)
//@ inv (?i int, w *bufio.Writer) cast_ghWriter(w).all + logTo(trans.rcptto, i) + specLogTail(trans) == specLogLine(prefix, trans)

//@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (id string, err error)
//@ props C14 C15 C26
//@ requires transOK(trans) && ghOutState == 0 && (hashtype == "msg" || hashtype == "full" || hashtype == "all")
//@ pre o0 string = cast_ghSink(logf).out
//@ pre sd string = trans.savedir
//@ ensures logf == nil || cast_ghSink(logf).out == o0 + specLogLine(prefix, trans)
//@ ensures id == specID(hashtype, prefix, trans)
//@ ensures err != nil || sd == "" || os.IsExist(uCreateErr(sd + "/" + id)) || ghOutState == 2 && !ghOutGone && ghOutName == sd + "/" + id && ghOutData == specIDLine(prefix, trans) + specMeta(trans)
//@ ensures err == nil || ghOutState == 0 || ghOutGone
//@ ensures sd != "" || ghOutState == 0
//@ sets ghHandled = true
//@ sets ghErr = err != nil
//@ sets ghID = id
//@ modifies ghSink.out@cast_ghSink(logf), ghSink.n@cast_ghSink(logf), G:ghOutName, G:ghOutData, G:ghOutState, G:ghOutGone, G:ghOutFile

//@ func newContext(trans *smtpTransaction, rules []*Rule) (c *Context)
//@ props C07 C08 C10 C26
//@ ensures c != nil && c.trans == trans && eqRules(c.ruleset, rules) && c.files != nil && c.dnsbl != nil && c.domvalid != nil
//@ ensures (c.ruleset == nil) == (rules == nil)
//@ ensures[C08] c.defresult < aAccept
//@ ensures c.heloname == "" && c.from == "" && c.rcptto == ""

//@ func doAccept(convo *smtpd.Conn, c *Context, transid string)
//@ props C16 C26
//@ requires convo != nil && c != nil
//@ pre n0 int = convo.XCount
//@ ensures convo.XCount == n0 + 1 && convo.XKind == smtpd.XAccept
//@ ensures convo.XText == acceptText(c.withprops["message"], transid)
//@ inline
//@ modifies smtpd.Conn.XCount@convo, smtpd.Conn.XFrom@convo, smtpd.Conn.XHelo@convo, smtpd.Conn.XKind@convo, smtpd.Conn.XRcpts@convo, smtpd.Conn.XText@convo

//@ guarded dnsblCounts.dbls M:map[string]uint64 by dnsblCounts.Mutex

//@ func (dc *dnsblCounts) Add(dbls []string)
//@ props C18 C22 C26
//@ requires dc != nil && dc.dbls != nil && !held_dnsblCounts_Mutex(dc)
//@ ensures !held_dnsblCounts_Mutex(dc)
//@ modifies M:map[string]uint64@dc.dbls

//@ func getSBLHits(t *smtpTransaction) (r []string)
//@ props C26
//@ requires t != nil

//@ func logDnsbls(c *Context)
//@ props C26
//@ requires c != nil && c.trans != nil && logOK(c.trans.log) && countsOK(dblcounts) && countsOK(sblcounts)
//@ modifies smtpTransaction.lastmsg@c.trans, Context.dnsblhit@c, M:map[string]uint64@dblcounts.dbls, M:map[string]uint64@sblcounts.dbls, ghWriter.all@cast_ghWriter(c.trans.log.writer)

//@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id string, trans *smtpTransaction) (ret bool)
//@ props C16 C26
//@ requires ctxOK(c) && wfRules(c.ruleset, 0) && ph >= pConnect && ph <= pMessage && c.defresult <= aReject && convo != nil && trans != nil && trans == c.trans && logOK(trans.log) && countsOK(dblcounts) && countsOK(sblcounts)
//@ forall k string
//@ witness kmsg string = "message"
//@ witness ksd string = "savedir"
//@ witness kmy string = "make-yakker"
//@ witness ktls string = "tls-opt"
//@ pre act Action = pre_action(ph, evt, c)
//@ pre msg string = pre_opt(ph, evt, c, "message")
//@ pre sd string = pre_opt(ph, evt, c, "savedir")
//@ pre my bool = pre_optHas(ph, evt, c, "make-yakker")
//@ pre to string = pre_opt(ph, evt, c, "tls-opt")
//@ pre n0 int = convo.XCount
//@ pre k0 int = convo.XKind
//@ pre t0 string = convo.XText
//@ pre sd0 string = trans.savedir
//@ pre my0 bool = trans.makeyakker
//@ pre tc *tls.Config = convo.Config.TLSConfig
//@ pre ca tls.ClientAuthType = tcAuth(convo.Config.TLSConfig)
//@ pre optk string = pre_opt(ph, evt, c, k)
//@ pre gsd string = ghSD
//@ pre gmy bool = ghMy
//@ sets ghDec = true
//@ sets ghAct = act
//@ sets ghMsg = msg
//@ sets ghSD = orStr(sd, gsd)
//@ sets ghMy = gmy || my
//@ sets ghTLSCfg = convo.Config.TLSConfig
//@ ensures ret == (act > aAccept && (ph != pConnect || act == aReject))
//@ ensures act <= aReject
//@ ensures ret && ph != pConnect || convo.XCount == n0 && convo.XKind == k0 && convo.XText == t0
//@ ensures !(ret && ph != pConnect) || convo.XCount == n0 + 1 && convo.XKind == kindOf(act)
//@ ensures !(ret && ph != pConnect) || convo.XText == refuseText(act, ph, msg, id, len(trans.rcptto))
//@ ensures c.withprops[k] == optk && c.defresult <= aReject
//@ ensures trans.savedir == orStr(sd, sd0)
//@ ensures trans.makeyakker == (my0 || my)
//@ ensures convo.Config.TLSConfig == tlsAfter(to, tc)
//@ ensures tc == nil || tc.ClientAuth == authAfter(to, ca)
//@ modifies smtpd.Conn.XCount@convo, smtpd.Conn.XKind@convo, smtpd.Conn.XText@convo, smtpd.Conn.Config.TLSConfig@convo, tls.Config.ClientAuth@convo.Config.TLSConfig
//@ modifies smtpTransaction.savedir@trans, smtpTransaction.makeyakker@trans, smtpTransaction.lastresgood@trans, smtpTransaction.lastmsg@trans, smtpTransaction.lastamsg@trans
//@ modifies Context.helocmd@c, Context.heloname@c, Context.from@c, Context.rcptto@c, Context.defresult@c, Context.defprops@c, Context.defdnsblhit@c, Context.withprops@c, Context.rulemiss@c, Context.dnsblhit@c, Context.domerr@c, M:map[string][]string@c.files, M:map[string]*Result@c.dnsbl, M:map[string]*DNSResult@c.domvalid
//@ modifies M:map[string]uint64@dblcounts.dbls, M:map[string]uint64@sblcounts.dbls, ghWriter.all@cast_ghWriter(trans.log.writer)

//@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtplog io.Writer, dnlog io.Writer, baserules []*Rule)
//@ props C10 C14 C15 C16 C17 C18 C19 C20 C23 C26
//@ requires nc != nil && nc.RemoteAddr() != nil && nc.LocalAddr() != nil
//@ requires wfRules(baserules, 0) && wfRules(stallall, 0) && countsOK(dblcounts) && countsOK(sblcounts) && countsOK(loccounts)
//@ requires mapsOK(yakkers) && mapsOK(notls) && yakkers != notls && !sameIps(yakkers.ips, notls.ips) && (hashtype == "msg" || hashtype == "full" || hashtype == "all")
//@ requires smtplog == nil || isPlain(smtplog)
//@ requires isPlain(dnlog)
//@ witness kmsg string = "message"
//@ pre rip string = ripOf(nc)
//@ pre stalled bool = isYakker(ripOf(nc)) && smtplog != nil
//@ pre counts bool = filesOK(rulefiles, 0) && yakCount > 0 && !(isYakker(ripOf(nc)) && smtplog != nil)
//@ pre ya0 int = ghYAdd
//@ pre ys0 int = ghYSet
//@ pre yd0 int = ghYDel
//@ pre nolive bool = isLive(notls, ripOf(nc), tlsTimeout)
//@ pre nocnt int = liveCount(notls, ripOf(nc), tlsTimeout)
//@ at decider (ph Phase, evt smtpd.EventInfo, c *Context, cv *smtpd.Conn, id string, t *smtpTransaction) [C16] cv == ghConvo && (ph == pConnect && cv.XEvt.What == 0 || evt == cv.XEvt && ph == phaseOf(evt)) && (id == "" || ph == pMessage && id == ghID && ghHandled)
//@ at decider (ph Phase, evt smtpd.EventInfo, c *Context, cv *smtpd.Conn, id string, t *smtpTransaction) [C10,C18] eqRules(c.ruleset, rulesFor(stalled, baserules))
//@ at decider (ph Phase, evt smtpd.EventInfo, c *Context, cv *smtpd.Conn, id string, t *smtpTransaction) [C17] sameEnvelope(t, cv) && t.rip == rip
//@ at handleMessage (prefix string, t *smtpTransaction, lf io.Writer) [C17] sameEnvelope(t, ghConvo) && t.data == ghConvo.XEvt.Arg && t.rip == rip
//@ at handleMessage (prefix string, t *smtpTransaction, lf io.Writer) [C14,C16] lf == logf && ghConvo.XCount == 0 && t.savedir == ghSD
//@ at handleMessage (prefix string, t *smtpTransaction, lf io.Writer) [C15] t.hash == specHash(t.data) && t.bodyhash == specBodyHash(t.data) && t.when == ghNow && t.raddr == nc.RemoteAddr() && t.laddr == nc.LocalAddr()
//@ at handleMessage (prefix string, t *smtpTransaction, lf io.Writer) [C15] t.tlson == ghConvo.TLSOn && t.cipher == ghConvo.TLSState.CipherSuite && t.tlsversion == ghConvo.TLSState.Version && t.servername == ghConvo.TLSState.ServerName
//@ at (*smtpd.Conn).Next (cv *smtpd.Conn) [C16] cv == ghConvo && done16(cv) && cv.Config.TLSConfig == ghTLSCfg
//@ at (*smtpd.Conn).Next (cv *smtpd.Conn) [C14] done14(cv)
//@ at (*smtpd.Conn).Next (cv *smtpd.Conn) [C19] done19(cv)
//@ at (*ipMap).Add (i *ipMap, ip string, ttl time.Duration) [C18] i != yakkers || ip == rip && ttl == yakTimeout && counts && !ghGot && !ghTLSErr
//@ at (*ipMap).Add (i *ipMap, ip string, ttl time.Duration) [C19] i != notls || ip == rip && ttl == tlsTimeout && ghConvo.XEvt.What == smtpd.TLSERROR
//@ at (*ipMap).Set (i *ipMap, ip string, ttl time.Duration, cnt int) [C18] i == yakkers && ip == rip && ttl == yakTimeout && cnt == yakCount
//@ at (*ipMap).Del (i *ipMap, ip string) [C18] i == yakkers && ip == rip
//@ unfold 0
//@ at loadConnFile (f string) [C23] f == connfile && f != ""
//@ at (*destMap).find (d *destMap, n2 net.Conn) [C23] d == ghDM && n2 == nc
//@ at smtpd.NewConn (n2 net.Conn, cfg smtpd.Config, lw io.Writer) [C19] (cfg.TLSConfig != nil) == (len(effCerts(certs)) > 0 && !(nolive && nocnt >= 2))
//@ at smtpd.NewConn (n2 net.Conn, cfg smtpd.Config, lw io.Writer) [C19] cfg.TLSConfig == nil || (nocnt == 0 || cfg.TLSConfig.ClientAuth == tls.NoClientCert) && (nocnt != 0 || cfg.TLSConfig.ClientAuth == tls.RequestClientCert)
//@ at smtpd.NewConn (n2 net.Conn, cfg smtpd.Config, lw io.Writer) [C19,C23] cfg.TLSConfig == nil || eqCerts(cfg.TLSConfig.Certificates, effCerts(certs))
//@ at smtpd.NewConn (n2 net.Conn, cfg smtpd.Config, lw io.Writer) [C23] n2 == nc && (destName() == "" || cfg.LocalName == destName()) && (destName() != "" || srvname == "" || cfg.LocalName == srvname)
//@ at decider (ph Phase, evt smtpd.EventInfo, c *Context, cv *smtpd.Conn, id string, t *smtpTransaction) [C20] rdnsIs(t.rdns, rip)
//@ at handleMessage (prefix string, t *smtpTransaction, lf io.Writer) [C15,C20] rdnsIs(t.rdns, rip)
//@ at handleMessage (prefix string, t *smtpTransaction, lf io.Writer) [C15] len(ghConvo.TLSState.VerifiedChains) == 0 || t.tlsverified && t.peername == specTLSName(ghConvo.TLSState.VerifiedChains[0][0])
//@ at handleMessage (prefix string, t *smtpTransaction, lf io.Writer) [C15] len(ghConvo.TLSState.VerifiedChains) > 0 || len(ghConvo.TLSState.PeerCertificates) == 0 || t.peername == specTLSName(ghConvo.TLSState.PeerCertificates[0])
//@ ensures[C16] !smtpd.XNeeds(ghConvo.XEvt) || ghConvo.XCount == 1
//@ ensures[C16] ghConvo.XEvt.What == 0 || ended(ghConvo) || smtpd.XNeeds(ghConvo.XEvt) && ghConvo.XKind == smtpd.XTempfail
//@ ensures[C18] !ended(ghConvo) || ghYSet == ys0 + oneIf(ghMy)
//@ ensures[C18] !ended(ghConvo) || ghYAdd == ghYAdd0 + oneIf(!ghMy && !ghGot && counts && !ghTLSErr)
//@ ensures[C18] !ended(ghConvo) || ghYDel == yd0 + oneIf(!ghMy && ghGot && yakCount > 0)
//@ ensures[C18] ended(ghConvo) || ghYSet == ys0 && ghYDel == yd0
//@ ensures[C18] ghConvo.XEvt.What != 0 || ghYAdd == ya0
//@ inv () ghYSet == ys0 && ghYDel == yd0
//@ inv () ghConvo.XEvt.What != 0 || ghYAdd == ya0
//@ inv (t *smtpTransaction) t.heloname == pendHelo(ghConvo) && t.from == pendFrom(ghConvo) && eqStrs(t.rcptto, pendRcpts(ghConvo))
//@ inv () done16(ghConvo) && ghConvo.Config.TLSConfig == ghTLSCfg
//@ inv () done14(ghConvo)
//@ inv () done19(ghConvo)
//@ inv (t *smtpTransaction) t.savedir == ghSD
//@ inv (t *smtpTransaction) t.makeyakker == ghMy
//@ inv (?g bool) g == (ghGot || reached(ghConvo))
//@ inv (?s bool) s == (counts && !ghTLSErr && ghConvo.XEvt.What != smtpd.TLSERROR)
//@ inv (?s bool) s != (counts && !ghTLSErr && ghConvo.XEvt.What != smtpd.TLSERROR)
//@ inv (?g bool) g != (ghGot || reached(ghConvo))
//@ inv (c *Context) c.defresult <= aReject
//@ modifies anything

//@ func buildRules(stdrules bool) (rules []*Rule)
//@ props C25
//@ ensures uParseErr(filterText(stdrules)) == nil && eqRules(rules, uParse(filterText(stdrules)))
//@ ensures wfRules(rules, 0)
//@ apply lemParse(filterText(stdrules))

//@ func genStallRules()
//@ props C10 C25
//@ ensures eqRules(stallall, uParse("stall all")) && uParseErr("stall all") == nil && len(stallall) > 0
//@ ensures wfRules(stallall, 0)
//@ apply lemParse("stall all")
//@ modifies G:stallall

//@ func openlogfile(fname string) (outf io.Writer, err error)
//@ props C14 C26
//@ ensures err != nil || (outf == nil) == (fname == "")
//@ ensures err != nil || outf == nil || isPlain(outf)

//@ func main()
//@ props C10 C14 C15 C18 C19 C23 C25 C26
//@ requires countsOK(dblcounts) && countsOK(sblcounts) && countsOK(loccounts) && mapsOK(yakkers) && mapsOK(notls) && yakkers != notls && !sameIps(yakkers.ips, notls.ips)
//@ requires len(rulefiles) == 0 && len(os.Args) > 0
//@ modifies anything
//@ at process (cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtplog io.Writer, dnlog io.Writer, baserules []*Rule) [C25] eqRules(baserules, uParse(optText()))
//@ at process (cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtplog io.Writer, dnlog io.Writer, baserules []*Rule) [C10] eqRules(stallall, uParse("stall all")) && eqStrs(rulefiles, specFiles(uFlagStr("r", "")))
//@ at process (cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtplog io.Writer, dnlog io.Writer, baserules []*Rule) [C14,C15] savedir == uFlagStr("d", "") && hashtype == uFlagStr("save-hash", "all") && (logf == nil) == (uFlagStr("l", "") == "")
//@ at process (cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtplog io.Writer, dnlog io.Writer, baserules []*Rule) [C18] yakCount == uFlagInt("dncount", 0) && yakTimeout == uFlagDur("dndur", 8*time.Hour) && minphase == optPhase() && (smtplog == nil) == (uFlagStr("smtplog", "") == "")
//@ at process (cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtplog io.Writer, dnlog io.Writer, baserules []*Rule) [C19,C23] connfile == uFlagStr("conncfg", "") && eqCerts(certs, optCerts())

//@ func (dc *dnsblCounts) Stats() (r interface{})
//@ props C26
//@ requires countsOK(dc)
//@ ensures !held_dnsblCounts_Mutex(dc)
