BUGS = []
def bug(id, property, needs, breaks, edits, demo, imports=('testing',)):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=list(imports)))

SM = ('testing', 'github.com/siebenmann/smtpd')

bug('c01-deep-domain', 'C01', 'an address whose domain has many labels and a pattern naming a parent beyond the fourth',
 'parent-domain patterns stop matching deep subdomains',
 [('rules.go', 'for ts != "@" {\n\t\tts = "@" + si.Next()', 'for n := 0; ts != "@" && n < 5; n++ {\n\t\tts = "@" + si.Next()')],
 '''func TestDemo(t *testing.T) {
	if !matchAddress("joe@a.b.c.d.e.f.example.org", "@.org") {
		t.Fatal("@.org must match a deep subdomain")
	}
}''')

bug('c02-source-null', 'C02', 'a "source" condition with a pattern file or a pattern, and a client whose greeting alone matches, only when the client also has verified names that do not match',
 "'source' looks at the greeting only for clients without verified reverse DNS",
 [('rnodes.go', 'return m.host.Eval(c) || m.ehlo.Eval(c) || m.from.Eval(c)', 'if len(c.trans.rdns.verified) > 0 {\n\t\treturn m.host.Eval(c) || m.from.Eval(c)\n\t}\n\treturn m.ehlo.Eval(c) || m.from.Eval(c)')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "reject source .spam.net\\n"))
	c.trans.rdns.verified = []string{"good.example.org."}
	Decide(pHelo, cmd(smtpd.EHLO, "x.spam.net"), c)
	if r := Decide(pMfrom, cmd(smtpd.MAILFROM, "a@b.c"), c); r != aReject {
		t.Fatal("source must look at the greeting", r)
	}
}''', SM)

bug('c04-quoted-end', 'C04', 'a quoted address whose domain ends the string normally and an address ending in a quote mark after the @',
 'an address that has its first quote in front of the last character but ends in a dot is no longer garbage',
 [('rules.go', "a[lp] == ']' || a[lp] == '.' || idx == lp", "a[lp] == ']' || (a[lp] == '.' && a[0] != '\"') || idx == lp")],
 '''func TestDemo(t *testing.T) {
	zone["MX b.org.."] = []string{"mx.b.org."}
	c := context0(nil)
	if getAddrOpts("\\"x\\"@b.org.", c)&oGarbage == 0 {
		t.Fatal("trailing dot is garbage")
	}
	if getAddrOpts("x@b.org.", c)&oGarbage == 0 {
		t.Fatal("trailing dot is garbage")
	}
}''')

bug('c05-nodots-ipv6', 'C05', 'a greeting that is a bare IPv6 address or contains colons but no dots',
 'an IPv6 greeting is classified as nodots',
 [('rules.go', 'if idx1 == -1 && idx2 == -1 {', 'if idx1 == -1 && (idx2 == -1 || net.ParseIP(hn) == nil) {')],
 '''func TestDemo(t *testing.T) {
	c := context0(nil)
	c.heloname = "[2001:db8::7]"
	if heloGetter(c)&oNodots != 0 {
		t.Fatal("a name with colons is not nodots")
	}
}''')

bug('c06-rcpt-rulemiss', 'C06', 'a recipient rule after RCPT TO with several accepted recipients, where judging an earlier recipient consults an empty pattern file and a later recipient matches without it',
 'the rule matches although its evaluation consulted an empty pattern file',
 [('rules.go', '\t\tif c.rulemiss {\n\t\t\treturn res\n\t\t}\n\t}\n\treturn false\n}', '\t}\n\treturn false\n}')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "@data reject to b@x.org or to /nonexistent/file\\n"))
	c.trans.rcptto = []string{"a@x.org", "b@x.org"}
	if r := Decide(pData, cmd(smtpd.DATA, ""), c); r != aNoresult {
		t.Fatal("an empty pattern file disables the rule", r)
	}
}''', SM)

bug('c07-setwith-phase', 'C07', 'a set-with rule that names a phase, judged in a later phase',
 "a phase-limited 'set-with' rule goes on matching in later phases",
 [('rules.go', 'case r.deferto != pAny && r.deferto < ph:', 'case r.deferto != pAny && r.deferto < ph && r.result != aNoresult:')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "@from set-with all with message hello\\n"))
	Decide(pMfrom, cmd(smtpd.MAILFROM, "a@b.c"), c)
	if c.withprops["message"] != "hello" {
		t.Fatal("must apply at MAIL FROM")
	}
	Decide(pRto, cmd(smtpd.RCPTTO, "a@b.c"), c)
	if c.withprops["message"] != "" {
		t.Fatal("must not apply at RCPT TO")
	}
}''', SM)

bug('c08-helo-clears', 'C08', 'a deferred refusal of MAIL FROM:<> followed by a new EHLO in the same connection',
 'a new greeting does not clear the deferred result and is refused itself',
 [('rules.go', '\t\tc.heloname = evt.Arg\n\t\tc.defresult = aError\n', '\t\tc.heloname = evt.Arg\n')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "reject from <>\\n"))
	Decide(pHelo, cmd(smtpd.EHLO, "x"), c)
	if r := Decide(pMfrom, cmd(smtpd.MAILFROM, ""), c); r != aAccept {
		t.Fatal("null sender must be accepted", r)
	}
	if r := Decide(pRto, cmd(smtpd.RCPTTO, "a@b"), c); r != aReject {
		t.Fatal("refusal must move to RCPT TO", r)
	}
	if r := Decide(pHelo, cmd(smtpd.EHLO, "x"), c); r != aNoresult {
		t.Fatal("a new greeting clears it", r)
	}
}''', SM)

bug('c09-deferred-options', 'C09', 'a refused null sender whose rule has options: MAIL FROM:<> is accepted',
 'the options of the deferred refusal leak into the acceptance of MAIL FROM:<>',
 [('rules.go', '\t\tc.defdnsblhit = c.dnsblhit\n\t\tc.withprops = make(map[string]string)\n', '\t\tc.defdnsblhit = c.dnsblhit\n')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "reject from <> with message no\\n"))
	if r := Decide(pMfrom, cmd(smtpd.MAILFROM, ""), c); r != aAccept || len(c.withprops) != 0 {
		t.Fatal("options of the refusal must wait", r, c.withprops)
	}
	if r := Decide(pRto, cmd(smtpd.RCPTTO, "a@b"), c); r != aReject || c.withprops["message"] != "no" {
		t.Fatal("and then apply", r, c.withprops)
	}
}''', SM)

bug('c10-later-good-file', 'C10', 'two or more rule files where a bad one is followed by a good one',
 'a broken rules file is skipped silently when a later file loads: a partial rule set is used',
 [('sinksmtp.go', '\t\trules, err = accumRules(rules, rfile)\n\t\tif err != nil {\n\t\t\tbreak\n\t\t}\n', '\t\trules, err = accumRules(rules, rfile)\n\t\tif err != nil && rfile == rulefiles[len(rulefiles)-1] {\n\t\t\tbreak\n\t\t}\n')],
 '''func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.WriteFile(d+"/a", []byte("reject nonsense\\n"), 0600)
	os.WriteFile(d+"/b", []byte("accept all\\n"), 0600)
	rulefiles = []string{d + "/a", d + "/b"}
	rs, good := setupRules(nil)
	if good || len(rs) != 1 || rs[0].result != aStall {
		t.Fatal("must stall everything", good, rs)
	}
}''', ('os', 'testing'))

bug('c11-dbl-phase', 'C11', 'a dbl condition with both the greeting and the sender among its sources',
 'a dbl rule about the sender is considered judgeable at HELO time',
 [('rparse.go', '\t\tcase (opts & oFrom) == oFrom:\n\t\t\tph = pMfrom\n\t\tcase (opts & oEhlo) == oEhlo:\n\t\t\tph = pHelo\n', '\t\tcase (opts & oEhlo) == oEhlo:\n\t\t\tph = pHelo\n\t\tcase (opts & oFrom) == oFrom:\n\t\t\tph = pMfrom\n')],
 '''func TestDemo(t *testing.T) {
	rs := rules(t, "reject dbl ehlo,from dbl.example.org\\n")
	if rs[0].requires != pMfrom {
		t.Fatal("needs the sender", rs[0].requires)
	}
}''')

bug('c12-not-or', 'C12', "a rule with 'not' in front of an 'or'",
 "'not a or b' is read as 'not (a or b)'",
 [('rparse.go', 'exr.node, err = p.pTerm()', 'exr.node, err = p.pOrl()')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "reject not helo foo or helo bar\\n"))
	if r := Decide(pHelo, cmd(smtpd.EHLO, "bar"), c); r != aReject {
		t.Fatal("not binds tighter than or", r)
	}
}''', SM)

bug('c13-comma-tab', 'C13', 'a comma followed by a tab character in an option list',
 'a comma followed by a tab is silently accepted as if the tab were not there',
 [('rlex.go', "if n == ' ' || n == '\\t' || n == '\\n' || n == eof {", "if n == ' ' || n == '\\n' || n == eof {")],
 '''func TestDemo(t *testing.T) {
	if _, err := Parse("reject from-has bad,\\troute\\n"); err == nil {
		t.Fatal("comma before white space is an error")
	}
}''')

bug('c14-missing-dir', 'C14', 'a save directory that does not exist (any more)',
 'a message that could not be saved because the directory is gone is accepted',
 [('sinksmtp.go', '} else if !os.IsExist(err) {\n\t\twarnf("error writing message file: %v\\n", err)\n', '} else if !os.IsExist(err) && !os.IsNotExist(err) {\n\t\twarnf("error writing message file: %v\\n", err)\n')],
 '''func TestDemo(t *testing.T) {
	savedir = t.TempDir() + "/gone"
	cl := newClient(cmd(smtpd.EHLO, "x"), cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "d@e.f"), cmd(smtpd.DATA, ""), message("hello\\n"))
	process(1, cl, nil, &cl.log, nil, nil, nil)
	if cl.replies[len(cl.replies)-1] != smtpd.XTempfail {
		t.Fatal("an unsaved message must not be accepted", cl.replies)
	}
}''', SM)

bug('c15-percent', 'C15', 'a message body containing a percent sign',
 'the saved message bytes are not those received',
 [('sinksmtp.go', 'fmt.Fprintf(writer, "body\\n%s", trans.data)', 'fmt.Fprintf(writer, "body\\n"+trans.data)')],
 '''func TestDemo(t *testing.T) {
	c := context0(nil)
	c.trans.data = "100%d sure\\n"
	b, _ := msgDetails("1/1", c.trans)
	if !strings.HasSuffix(string(b), "\\nbody\\n100%d sure\\n") {
		t.Fatalf("%s", b)
	}
}''', ('strings', 'testing'))

bug('c16-tlsopt-sticky', 'C16', "a rule with tls-opt no-client and another matching rule after it",
 "'tls-opt no-client' turns TLS off altogether when the connection's rules also stall",
 [('sinksmtp.go', '\tcase "no-client":\n', '\tcase "no-client":\n\t\tif res == aStall {\n\t\t\tconvo.Config.TLSConfig = nil\n\t\t}\n')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "@connect stall all with tls-opt no-client\\n"))
	convo := smtpd.NewConn(newClient(), smtpd.Config{TLSConfig: &tls.Config{ClientAuth: tls.RequestClientCert}}, nil)
	if decider(pConnect, smtpd.EventInfo{}, c, convo, "", c.trans) {
		t.Fatal("a stall at connect lets the connection go on")
	}
	if convo.Config.TLSConfig == nil || convo.Config.TLSConfig.ClientAuth != tls.NoClientCert {
		t.Fatal("no-client only stops asking for client certificates")
	}
}''', ('crypto/tls', 'testing', 'github.com/siebenmann/smtpd'))

bug('c17-rcpt-carryover', 'C17', 'two messages in one session without a new EHLO in between',
 "the second message's recorded recipients include the first one's",
 [('sinksmtp.go', '\t\t\t\ttrans.from = evt.Arg\n\t\t\t\ttrans.data = ""\n\t\t\t\ttrans.rcptto = []string{}\n', '\t\t\t\tif evt.Arg != trans.from {\n\t\t\t\t\ttrans.rcptto = []string{}\n\t\t\t\t}\n\t\t\t\ttrans.from = evt.Arg\n\t\t\t\ttrans.data = ""\n')],
 '''func TestDemo(t *testing.T) {
	savedir = ""
	cl := newClient(cmd(smtpd.EHLO, "x"), cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "one@e.f"), cmd(smtpd.DATA, ""), message("hello\\n"),
		cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "two@e.f"), cmd(smtpd.DATA, ""), message("again\\n"))
	process(1, cl, nil, &cl.log, nil, nil, nil)
	if strings.Count(cl.log.String(), "<one@e.f>") != 1 {
		t.Fatal(cl.log.String())
	}
}''', ('strings', 'testing', 'github.com/siebenmann/smtpd'))

bug('c18-window', 'C18', 'a client that connects again near the end of the window of its first do-nothing session',
 'the time of the last do-nothing session is not recorded, so the window runs from the first one',
 [('sinksmtp.go', '\t\ti.stats.AddsExpired++\n\t}\n\tt.count++\n\tt.when = time.Now()\n\tcnt := t.count\n', '\t\ti.stats.AddsExpired++\n\t}\n\tt.count++\n\tif t.count == 1 {\n\t\tt.when = time.Now()\n\t}\n\tcnt := t.count\n')],
 '''func TestDemo(t *testing.T) {
	m := &ipMap{ips: make(map[string]*ipEnt)}
	m.Add("192.0.2.1", time.Hour)
	m.ips["192.0.2.1"].when = time.Now().Add(-59 * time.Minute)
	m.Add("192.0.2.1", time.Hour)
	if hit, n := m.Lookup("192.0.2.1", 30*time.Minute); !hit || n != 2 {
		t.Fatal("the last session was just now", hit, n)
	}
}''', ('testing', 'time'))

bug('c19-tls-window', 'C19', 'two TLS failures of a client more than eight but less than 72 hours apart',
 'TLS failures are forgotten too early',
 [('sinksmtp.go', 'notls.Add(trans.rip, tlsTimeout)', 'notls.Add(trans.rip, yakTimeout)')],
 '''func TestDemo(t *testing.T) {
	notls.ips["198.51.100.3"] = &ipEnt{when: time.Now().Add(-20 * time.Hour), count: 1}
	cl := newClient(cmd(smtpd.EHLO, "x"), smtpd.EventInfo{What: smtpd.TLSERROR})
	process(1, cl, nil, &cl.log, nil, nil, nil)
	if hit, n := notls.Lookup("198.51.100.3", tlsTimeout); !hit || n != 2 {
		t.Fatal("two failures within 72 hours", hit, n)
	}
}''', ('testing', 'time', 'github.com/siebenmann/smtpd'))

bug('c20-dup-verified', 'C20', "a reverse DNS name whose forward lookup lists the client's address more than once",
 'a verified name is listed several times',
 [('rdns.go', '\t\t\t\tverified = true\n\t\t\t\tbreak\n', '\t\t\t\tverified = true\n')],
 '''func TestDemo(t *testing.T) {
	zone["PTR 3.100.51.198.in-addr.arpa."] = []string{"h.example.org."}
	zone["A h.example.org."] = []string{"198.51.100.3", "198.51.100.3"}
	r, err := LookupAddrVerified("198.51.100.3")
	if err != nil || len(r.verified) != 1 {
		t.Fatal(r, err)
	}
}''')

bug('c21-early-good', 'C21', 'a domain with a good MX host at a better preference than a bogus MX entry',
 "a bogus 'localhost.' MX entry no longer makes the domain bad when a good entry comes first",
 [('mxresolve.go', '\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}\n', '\t\t\tvalid = v\n\t\t\tverr = err\n\t\t}\n\t\tif valid == dnsGood {\n\t\t\tbreak\n\t\t}\n')],
 '''func TestDemo(t *testing.T) {
	zone["MX example.org."] = []string{"good.example.org.", "localhost."}
	zone["A good.example.org."] = []string{"8.8.8.8"}
	if r, _ := ValidDomain("example.org"); r != dnsBad {
		t.Fatal("any bogus MX makes it bad", r)
	}
}''')

bug('c22-nofwd', 'C22', "a client with a reverse DNS name that has no forward lookup, and a dbl condition about host names",
 'names without forward DNS are not checked against domain blocklists unless there is a verified name',
 [('rnodes.go', '\t\tfor _, s := range c.trans.rdns.nofwd {\n', '\t\tif len(check) == 0 {\n\t\t\treturn false\n\t\t}\n\t\tfor _, s := range c.trans.rdns.nofwd {\n')],
 '''func TestDemo(t *testing.T) {
	zone["A bad.example.org.dbl.example.net."] = []string{"127.0.0.2"}
	c := context0(rules(t, "reject dbl host dbl.example.net\\n"))
	c.trans.rdns.nofwd = []string{"bad.example.org."}
	if r := Decide(pHelo, cmd(smtpd.EHLO, "x"), c); r != aReject {
		t.Fatal("all reverse DNS names count", r)
	}
}''', SM)

bug('c23-no-certs', 'C23', 'a connection-parameter line without certificates for a server that has command line certificates',
 'a matching line without certificates no longer turns TLS off',
 [('sinksmtp.go', '\t\t\tcerts = pd.certs\n', '\t\t\tif pd.certs != nil || pd.myname == "" {\n\t\t\t\tcerts = pd.certs\n\t\t\t}\n')],
 '''func TestDemo(t *testing.T) {
	connfile = t.TempDir() + "/c"
	os.WriteFile(connfile, []byte("* hostname=foo.example.org\\n"), 0600)
	cl := newClient(cmd(smtpd.EHLO, "x"))
	process(1, cl, []tls.Certificate{{}}, &cl.log, nil, nil, nil)
	if cl.conf.TLSConfig != nil || cl.conf.LocalName != "foo.example.org" {
		t.Fatal("the line's (lack of) certificates replaces the command line's")
	}
}''', ('crypto/tls', 'os', 'testing', 'github.com/siebenmann/smtpd'))

bug('c24-empty-reload', 'C24', 'a pattern file that is missing when first used and appears during the connection',
 'one connection sees two versions of a pattern file',
 [('rules.go', '\t\tc.files[fname] = []string{}\n\t\treturn c.files[fname]\n', '\t\treturn []string{}\n')],
 '''func TestDemo(t *testing.T) {
	fn := t.TempDir() + "/list"
	c := context0(nil)
	if l := c.getMatchList(fn); len(l) != 0 {
		t.Fatal(l)
	}
	os.WriteFile(fn, []byte("a@b.c\\n"), 0600)
	if l := c.getMatchList(fn); len(l) != 0 {
		t.Fatal("one connection sees one version of a file", l)
	}
}''', ('os', 'testing'))

bug('c25-helo-nostd', 'C25', '-heloreject without the standard rules',
 'the -heloreject filter has no effect when the standard rules are disabled and a -fromreject file is given',
 [('sinksmtp.go', '\tif heloreject != "" {\n', '\tif heloreject != "" && (stdrules || fromreject == "") {\n')],
 '''func TestDemo(t *testing.T) {
	fromreject, heloreject = "/f", "/h"
	if rs := buildRules(false); len(rs) != 2 || rs[1].deferto != pMfrom {
		t.Fatal(rs)
	}
}''')

bug('c26-noclient-nil', 'C26', 'tls-opt no-client after TLS was turned off or without certificates',
 'a rule option crashes the server',
 [('sinksmtp.go', '\t\tif convo.Config.TLSConfig != nil {\n\t\t\tconvo.Config.TLSConfig.ClientAuth = tls.NoClientCert\n\t\t}\n', '\t\tif convo.Config.TLSConfig != nil || ph != pConnect {\n\t\t\tconvo.Config.TLSConfig.ClientAuth = tls.NoClientCert\n\t\t}\n')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "@helo set-with all with tls-opt no-client\\n"))
	convo := smtpd.NewConn(newClient(), smtpd.Config{}, nil)
	decider(pHelo, cmd(smtpd.EHLO, "x"), c, convo, "", c.trans)
}''', SM)

# ---- batch 2

bug('c03-mapped', 'C03', 'a client address in IPv4-mapped IPv6 form and an IPv4 netblock',
 'IPv4 netblocks no longer cover IPv4-mapped client addresses',
 [('rules.go', '\t_, ipn, err := net.ParseCIDR(cidr)\n\tif err != nil {\n\t\treturn false\n', '\t_, ipn, err := net.ParseCIDR(cidr)\n\tif err != nil || strings.Contains(rip, ":") != strings.Contains(cidr, ":") {\n\t\treturn false\n')],
 '''func TestDemo(t *testing.T) {
	if !matchIp("::ffff:192.0.2.1", "192.0.2.0/24") {
		t.Fatal("same address")
	}
}''')

bug('c06-andl-nostop', 'C06', "a failing condition followed by one that consults a missing pattern file, under 'not'",
 'conditions after a failed one are evaluated and disable the rule',
 [('rnodes.go', '\t\tr = a.nodes[i].Eval(c)\n\t\tif !r {\n\t\t\treturn r\n\t\t}\n\t}\n\treturn true\n', '\t\tr = a.nodes[i].Eval(c) && (i == 0 || r)\n\t}\n\treturn r\n')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "reject not ( helo foo helo /nonexistent/file )\\n"))
	if r := Decide(pHelo, cmd(smtpd.EHLO, "bar"), c); r != aReject {
		t.Fatal("helo foo already failed, so the file is not consulted", r)
	}
}''', SM)

bug('c07-message-rcpt', 'C07', "a rule about recipients that is deferred to @message",
 "'@message' rules no longer look at the accepted recipients",
 [('rules.go', 'if ph > pRto && rp >= pRto {', 'if ph == pData && rp >= pRto {')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "@message reject to b@x.org\\n"))
	c.trans.rcptto = []string{"a@x.org", "b@x.org"}
	if r := Decide(pMessage, smtpd.EventInfo{}, c); r != aReject {
		t.Fatal("must look at every recipient", r)
	}
}''', SM)

bug('c08-second-null', 'C08', 'two MAIL FROM:<> in one session, the first of which was refused by a rule that no longer matches',
 'a second MAIL FROM:<> answers with the deferred result of the first',
 [('rules.go', '\t\tc.from = evt.Arg\n\t\tc.defresult = aError\n', '\t\tif c.from = evt.Arg; c.from != "" {\n\t\t\tc.defresult = aError\n\t\t}\n')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "@from reject from <>\\n"))
	for i := 0; i < 2; i++ {
		if r := Decide(pMfrom, cmd(smtpd.MAILFROM, ""), c); r != aAccept {
			t.Fatal("MAIL FROM:<> is never refused", i, r)
		}
	}
}''', SM)

bug('c09-first-note', 'C09', 'two matching set-with rules that give the same option',
 'an earlier note is no longer replaced by a later one',
 [('rnodes.go', '\t\t\tc.withprops[k] = v\n', '\t\t\tif k == "note" && c.withprops[k] != "" {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tc.withprops[k] = v\n')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "set-with all with note one\\nreject all with note two\\n"))
	Decide(pHelo, cmd(smtpd.EHLO, "x"), c)
	if c.withprops["note"] != "two" {
		t.Fatal(c.withprops)
	}
}''', SM)

bug('c10-include-missing', 'C10', 'a rules file that includes a file which does not exist',
 'a missing included file is silently ignored instead of stalling everything',
 [('rparse.go', '\trules, err := loadRules(fname)\n\tif err != nil {\n', '\trules, err := loadRules(fname)\n\tif err != nil && !os.IsNotExist(err) {\n'),
  ('rparse.go', '\t"fmt"\n', '\t"fmt"\n\t"os"\n')],
 '''func TestDemo(t *testing.T) {
	fn := t.TempDir() + "/rules"
	os.WriteFile(fn, []byte("include /nonexistent/rules\\n"), 0600)
	rulefiles = []string{fn}
	if _, good := setupRules(nil); good {
		t.Fatal("a missing include must be an error")
	}
}''', ('os', 'testing'))

bug('c11-clause-reset', 'C11', 'a rule of several clauses, an earlier of which needs a later phase than the last',
 'the phase a rule runs in is that of its last clause only',
 [('rparse.go', '\t\t// an EOL immediately after it too.\n', '\t\t// an EOL immediately after it too.\n\t\tp.currule.requires = pAny\n')],
 '''func TestDemo(t *testing.T) {
	rs := rules(t, "reject to a@b ; helo foo\\n")
	if rs[0].requires != pRto {
		t.Fatal("needs the recipient", rs[0].requires)
	}
}''')

bug('c12-include-trailing', 'C12', 'an include line with a second word',
 'a second word after an include is silently ignored or taken for a new rule',
 [('rparse.go', '\tif !p.isEol() {\n\t\treturn rules, p.genError("expecting end of line")\n', '\tif p.curtok.typ == itemValue {\n\t\tp.consume()\n\t}\n\tif !p.isEol() {\n\t\treturn rules, p.genError("expecting end of line")\n')],
 '''func TestDemo(t *testing.T) {
	fn := t.TempDir() + "/rules"
	os.WriteFile(fn, []byte("reject all\\n"), 0600)
	if _, err := Parse("include " + fn + " extra\\n"); err == nil {
		t.Fatal("an include takes one file name")
	}
}''', ('os', 'testing'))

bug('c13-escape-other', 'C13', 'a quoted value with a backslash that escapes neither a quote nor a backslash',
 'the backslash is dropped in front of an apostrophe',
 [('rlex.go', 'if !(strings.HasPrefix(l.input[apos:], "\\\\\\"") || strings.HasPrefix(l.input[apos:], "\\\\\\\\")) {', 'if !(strings.HasPrefix(l.input[apos:], "\\\\\\"") || strings.HasPrefix(l.input[apos:], "\\\\\\\\") || strings.HasPrefix(l.input[apos:], "\\\\\'")) {')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "reject all with note \\"a\\\\'b\\"\\n"))
	Decide(pHelo, cmd(smtpd.EHLO, "x"), c)
	if c.withprops["note"] != "a\\\\'b" {
		t.Fatal(c.withprops)
	}
}''', SM)

bug('c14-overwrite-msg', 'C14', '-save-hash msg and the same message received again',
 'a message that is already saved is overwritten (and lost if the write fails)',
 [('sinksmtp.go', '\tfp, err := os.OpenFile(tgt, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)\n', '\tflags := os.O_EXCL\n\tif hashtype == "msg" {\n\t\tflags = os.O_TRUNC\n\t}\n\tfp, err := os.OpenFile(tgt, os.O_WRONLY|os.O_CREATE|flags, 0666)\n')],
 '''func TestDemo(t *testing.T) {
	savedir = t.TempDir()
	run := func(from string) {
		cl := newClient(cmd(smtpd.EHLO, "x"), cmd(smtpd.MAILFROM, from), cmd(smtpd.RCPTTO, "d@e.f"), cmd(smtpd.DATA, ""), message("hello\\n"))
		process(1, cl, nil, &cl.log, nil, nil, nil)
	}
	run("first@b.c")
	run("second@b.c")
	fs, _ := os.ReadDir(savedir)
	if len(fs) != 1 {
		t.Fatal(fs)
	}
	b, _ := os.ReadFile(savedir + "/" + fs[0].Name())
	if !strings.Contains(string(b), "first@b.c") {
		t.Fatalf("a saved message is not overwritten: %s", b)
	}
}''', ('os', 'strings', 'testing', 'github.com/siebenmann/smtpd'))

bug('c16-percent', 'C16', "a stall rule whose message has a percent sign",
 'the message text is taken for a format',
 [('sinksmtp.go', 'convo.TempfailMsg("%s", msg)', 'convo.TempfailMsg(msg)')],
 '''func TestDemo(t *testing.T) {
	c := context0(rules(t, "stall all with message \\"100%d full\\"\\n"))
	cl := newClient()
	convo := smtpd.NewConn(cl, smtpd.Config{}, nil)
	decider(pHelo, cmd(smtpd.EHLO, "x"), c, convo, "", c.trans)
	if len(cl.texts) != 1 || cl.texts[0] != "100%d full" {
		t.Fatal(cl.texts)
	}
}''', SM)

bug('c17-refused-helo', 'C17', 'an accepted greeting followed by a refused one, then a message',
 'the recorded greeting is the refused one',
 [('sinksmtp.go', '\t\t\t\tif decider(pHelo, evt, c, convo, "", trans) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\ttrans.heloname = evt.Arg\n', '\t\t\t\ttrans.heloname = evt.Arg\n\t\t\t\tif decider(pHelo, evt, c, convo, "", trans) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n')],
 '''func TestDemo(t *testing.T) {
	savedir = ""
	cl := newClient(cmd(smtpd.EHLO, "good"), cmd(smtpd.EHLO, "bad"), cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "one@e.f"), cmd(smtpd.DATA, ""), message("hello\\n"))
	process(1, cl, nil, &cl.log, nil, nil, rules(t, "@helo reject helo bad\\n"))
	if strings.Contains(cl.log.String(), "bad") || !strings.Contains(cl.log.String(), "good") {
		t.Fatal(cl.log.String())
	}
}''', ('strings', 'testing', 'github.com/siebenmann/smtpd'))

bug('c18-del-sesscounts', 'C18', 'a client that gets somewhere in a session which does not count (a TLS error at the end)',
 'its do-nothing count is not forgotten',
 [('sinksmtp.go', 'case yakCount > 0 && gotsomewhere:', 'case sesscounts && gotsomewhere:')],
 '''func TestDemo(t *testing.T) {
	yakCount = 5
	yakkers.Add("198.51.100.3", yakTimeout)
	cl := newClient(cmd(smtpd.EHLO, "x"), smtpd.EventInfo{What: smtpd.TLSERROR})
	process(1, cl, nil, &cl.log, &cl.smtplog, nil, nil)
	if hit, n := yakkers.Lookup("198.51.100.3", yakTimeout); hit {
		t.Fatal("a session that got somewhere clears the count", n)
	}
}''', SM)

bug('c19-client-cert', 'C19', 'a client with exactly one earlier TLS failure',
 'a client certificate is asked for again after a TLS failure',
 [('sinksmtp.go', '\t\tif blcount == 0 {\n\t\t\ttlsc.ClientAuth', '\t\tif blcount < 2 {\n\t\t\ttlsc.ClientAuth')],
 '''func TestDemo(t *testing.T) {
	notls.Add("198.51.100.3", tlsTimeout)
	cl := newClient(cmd(smtpd.EHLO, "x"))
	process(1, cl, []tls.Certificate{{}}, &cl.log, nil, nil, nil)
	if cl.conf.TLSConfig == nil || cl.conf.TLSConfig.ClientAuth != tls.NoClientCert {
		t.Fatal("TLS without asking for a certificate")
	}
}''', ('crypto/tls', 'testing', 'github.com/siebenmann/smtpd'))

bug('c20-spelling', 'C20', 'an IPv6 client address whose text is not in the canonical spelling, or an IPv4-mapped one',
 'names are not verified because addresses are compared as text',
 [('rdns.go', 'if addr.Equal(eip) {', 'if addr.String() == ip {'), ('rdns.go', '\teip := net.ParseIP(ip)\n', '')],
 '''func TestDemo(t *testing.T) {
	zone["PTR 3.100.51.198.in-addr.arpa."] = []string{"h.example.org."}
	zone["A h.example.org."] = []string{"198.51.100.3"}
	r, err := LookupAddrVerified("::ffff:198.51.100.3")
	if err != nil || len(r.verified) != 1 {
		t.Fatal(r, err)
	}
}''')

bug('c21-first-private', 'C21', 'a host with a public address first and a private one later',
 'only the first address is checked for private address space',
 [('mxresolve.go', '\tfor _, i := range addrs {\n', '\tfor n, i := range addrs {\n'),
  ('mxresolve.go', 'if net10.Contains(i) || net172.Contains(i) ||', 'if n == 0 && net10.Contains(i) || net172.Contains(i) ||')],
 '''func TestDemo(t *testing.T) {
	zone["A a.example.org."] = []string{"192.0.2.9", "10.0.0.1"}
	if r, _ := checkIP("a.example.org."); r != dnsBad {
		t.Fatal("one private address is enough", r)
	}
}''')

bug('c22-suffix-hit', 'C22', 'two DNS blocklists, one of which is a subdomain of the other',
 'a blocklist hit is not recorded when a list with a longer name was hit before',
 [('rules.go', 'if c.dnsblhit[i] == domain {', 'if strings.HasSuffix(c.dnsblhit[i], domain) {')],
 '''func TestDemo(t *testing.T) {
	c := context0(nil)
	c.addDnsblHit("sbl.example.org.")
	c.addDnsblHit("example.org.")
	if len(c.dnsblhit) != 2 {
		t.Fatal(c.dnsblhit)
	}
}''')

bug('c23-specific-first', 'C23', 'a catch-all line before a line for the exact address',
 'a later, more specific line wins over the first matching one',
 [('conncfg.go', '\tfor _, de := range *d {\n', '\tfor _, de := range *d {\n\t\tif de.local == las {\n\t\t\treturn de\n\t\t}\n\t}\n\tfor _, de := range *d {\n')],
 '''func TestDemo(t *testing.T) {
	d, err := readConnFile(bufio.NewReader(strings.NewReader("192.0.2.0/24 hostname=one\\n192.0.2.1:25 hostname=two\\n")))
	if err != nil {
		t.Fatal(err)
	}
	if pd := d.find(newClient()); pd == nil || pd.myname != "one" {
		t.Fatal("the first matching line wins", pd)
	}
}''', ('bufio', 'strings', 'testing'))

bug('c24-indented-comment', 'C24', 'a pattern file with an indented comment line',
 'indented comments become patterns',
 [('sinksmtp.go', '\t\tline = strings.TrimSpace(line)\n\t\tif line == "" || line[0] == \'#\' {\n', '\t\tcomment := line[0] == \'#\'\n\t\tline = strings.TrimSpace(line)\n\t\tif line == "" || comment {\n')],
 '''func TestDemo(t *testing.T) {
	l, err := readList(bufio.NewReader(strings.NewReader("a@b.c\\n  # not a pattern\\n")))
	if err != nil || len(l) != 1 {
		t.Fatal(l, err)
	}
}''', ('bufio', 'strings', 'testing'))

bug('c26-blank-conn-line', 'C26', 'a blank line in the connection-parameter file',
 'the server crashes on a blank line',
 [('conncfg.go', '\t\tif line == "" || line[0] == \'#\' {\n', '\t\tif line[0] == \'#\' || line == "" {\n')],
 '''func TestDemo(t *testing.T) {
	if _, err := readConnFile(bufio.NewReader(strings.NewReader("\\n"))); err != nil {
		t.Fatal(err)
	}
}''', ('bufio', 'strings', 'testing'))
