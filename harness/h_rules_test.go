package main

// Rules: random rule texts against random sessions, compared with the model.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/siebenmann/smtpd"
)

var hLocals = []string{"joe", "JOE", "a", "postmaster", "<x", "\"q r\"", "a.b", "x..y", "j\"k", "@relay:u"}
var hDoms = []string{"example.com", "sub.example.com", "Example.COM", "notexample.com", "com", "b.org", "x.y.b.org", "spam.net", "h1.net", "h2.net", "h3.net", "d.e.f.g", "co.", "[1.2.3.4]", "a..b", "x.org>", "x.org\"", "localhost"}
var hIPs = []string{"192.0.2.7", "198.51.100.3", "203.0.113.9", "10.1.2.3", "127.0.0.1", "2001:db8::1", "2001:db8:0:0::1", "::ffff:192.0.2.7", "", "junk", "192.0.2", "192.0.2.7.8"}
var hIPPats = []string{"192.0.2.7", "192.0.2.0/24", "192.0.2.8/29", "0.0.0.0/0", "2001:db8::/32", "2001:DB8::1", "::ffff:192.0.2.7", "10.0.0.0/8", "198.51.100.3", "203.0.113.8/31", "::/0", "203.0.113.9/32", "192.0.2.7/33"}

func hAddr() string {
	switch hInt(14) {
	case 0:
		return ""
	case 1:
		return hPick(hLocals)
	case 2:
		return "@" + hPick(hDoms)
	case 3:
		return hPick(hLocals) + "@"
	case 4:
		return hMutate(hPick(hLocals) + "@" + hPick(hDoms))
	case 5:
		return hPick(hLocals) + "@@" + hPick(hDoms)
	case 6:
		return hChars("a.@b", 8)
	case 7:
		return "a@b@" + hPick(hDoms)
	case 8:
		if len(hSeedsStr) > 0 {
			return hPick(hSeedsStr)
		}
	case 9, 10:
		// domains with DNS answers that differ from name to name
		return fmt.Sprintf("%s@d%d.net", hPick([]string{"joe", "a", "\"q r\""}), hInt(40))
	}
	return hPick(hLocals[:3]) + "@" + hPick(hDoms[:11])
}

func hHost() string {
	switch hInt(12) {
	case 0:
		return ""
	case 1:
		return "."
	case 2:
		return hPick(hIPs)
	case 3:
		return "[" + hPick(hIPs) + "]"
	case 4:
		return hMutate(hPick(hHosts))
	case 5:
		return hChars("a.b", 7)
	case 6:
		return hPick([]string{"[", "]", "[]", "[.]", "::1", ":", "a:b", "nodots", "[1.2.3.4", "1.2.3.4]", "..", ".a", "a..b"})
	case 7:
		if len(hSeedsStr) > 0 {
			return hPick(hSeedsStr)
		}
	case 8:
		return hPick(hHosts) + "."
	}
	return hPick(append([]string{"example.com", "com", "B.org"}, hHosts...))
}

func hAddrPat() string {
	if hOne(40) && len(hSeedsStr) > 0 {
		return hPick(hSeedsStr)
	}
	switch hInt(10) {
	case 0:
		return "<>"
	case 1:
		return "@"
	case 2:
		return "@." + hPick(hDoms)
	case 3:
		return "@" + hPick(hDoms)
	case 4:
		return hPick(hLocals) + "@"
	case 5:
		return hMutate(hAddr())
	case 6:
		return hMutate("@." + hPick(hDoms))
	case 7:
		return hChars("a.@b", 6)
	}
	return hAddr()
}

func hHostPat() string {
	switch hInt(8) {
	case 0:
		return "." + hPick(hHosts)
	case 1:
		return hMutate(hPick(hHosts))
	case 2:
		return hPick([]string{".", ".com", "com", ".example.com", "example.com", "example.com.", ".com.", "b.org", ".b.org", ".org", "y.b.org"})
	case 3:
		return hMutate(hHost())
	case 4:
		return hMutate("." + hPick(hHosts))
	case 5:
		return hChars("a.b", 6)
	}
	return hHost()
}

func hDomPat() string {
	if hOne(2) {
		return hHostPat()
	}
	return hMutate("." + hPick(hDoms))
}

// hList makes a list file (or none) and gives its name.
func hList(pat func() string) string {
	switch hInt(8) {
	case 0:
		return hDir + "/missing"
	case 1:
		return hFile("")
	case 2:
		return hFile("# nothing\n\n  \n")
	case 3:
		return hDir
	}
	var b strings.Builder
	for n := 1 + hInt(4); n > 0; n-- {
		switch hInt(6) {
		case 0:
			b.WriteString("# comment " + pat() + "\n")
		case 1:
			b.WriteString(" \t" + pat() + " \n")
		case 2:
			b.WriteString(strings.ToUpper(pat()) + "\r\n")
		default:
			b.WriteString(pat() + "\n")
		}
	}
	s := b.String()
	if hOne(3) {
		s = strings.TrimRight(s, "\r\n")
	}
	return hFile(s)
}

func hQuote(s string) string {
	return "\"" + strings.ReplaceAll(strings.ReplaceAll(s, "\\", "\\\\"), "\"", "\\\"") + "\""
}

// hArgText writes an argument, quoted if it needs to be.
func hArgText(s string) string {
	if s == "" || strings.ContainsAny(s, " \t\n(),;\"\\#") || s[0] == '"' || hOne(10) || s == "file:" || strings.HasPrefix(s, "file:") && len(s) == 5 {
		return hQuote(s)
	}
	return s
}

type hFocus struct {
	ops     []string
	files   int // one condition in this many uses a file, 0 is none
	withs   int
	phases  bool
	structs int
}

func hSp() string {
	switch hInt(12) {
	case 0:
		return "  "
	case 1:
		return "\t"
	case 2:
		return " \\\n "
	}
	return " "
}

func hOptText(op string) string {
	l := strings.Fields(hOptNames[op])
	var o []string
	for n := 1 + hInt(2); n > 0; n-- {
		o = append(o, hPick(l))
	}
	return strings.Join(o, ",")
}

func (f *hFocus) cond() string {
	op := hPick(f.ops)
	arg := func(pat func() string) string {
		if f.files > 0 && hOne(f.files) {
			fn := hList(pat)
			if hOne(3) {
				fn = "file:" + fn
			}
			return fn
		}
		return hArgText(pat())
	}
	switch op {
	case "all":
		return "all"
	case "tls":
		return "tls" + hSp() + hPick([]string{"on", "off"})
	case "from", "to":
		return op + hSp() + arg(hAddrPat)
	case "helo", "ehlo", "host":
		return op + hSp() + arg(hHostPat)
	case "source":
		return op + hSp() + arg(hDomPat)
	case "ip":
		a := arg(func() string { return hPick(hIPPats[:12]) })
		return op + hSp() + a
	case "from-has", "to-has", "helo-has", "dns":
		return op + hSp() + hOptText(op)
	case "dnsbl":
		return op + hSp() + hPick([]string{"bl.test.", "bl.test", "other.test.", "third.bl."})
	case "dbl":
		return op + hSp() + hOptText(op) + hSp() + hPick([]string{"dbl.test.", "dbl.test", "odd.test."})
	}
	panic(op)
}

func (f *hFocus) term(d int) string {
	switch {
	case d > 0 && hOne(6):
		return "not" + hSp() + f.term(d-1)
	case d > 0 && hOne(4):
		return "(" + f.seq(d-1) + ")"
	}
	return f.cond()
}

func (f *hFocus) seq(d int) string {
	s := ""
	n := 1
	if d > 0 {
		n += hInt(3)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			if hOne(2) {
				s += hSp() + "or" + hSp()
			} else {
				s += hSp()
			}
		}
		s += f.term(d)
	}
	return s
}

func (f *hFocus) with() string {
	s := ""
	for _, o := range []string{"message", "note", "savedir", "tls-opt", "make-yakker"} {
		if !hOne(3) {
			continue
		}
		switch o {
		case "tls-opt":
			s += " tls-opt " + hPick([]string{"off", "no-client"})
		case "make-yakker":
			s += " make-yakker"
		default:
			s += " " + o + " " + hPick([]string{"\"m 1\"", "two", "\"three \\\" \\\\\"", "four", "from"})
		}
	}
	if s == "" {
		s = " message " + hPick([]string{"aa", "bb", "cc"})
	}
	return hSp() + "with" + s
}

func (f *hFocus) rule() string {
	act := hPick([]string{"accept", "reject", "stall", "set-with", "set-with"})
	s := ""
	if f.phases && hOne(3) {
		s = hPick([]string{"@connect", "@helo", "@from", "@to", "@data", "@message"}) + hSp()
	}
	s += act + hSp()
	n := 1
	if hOne(4) {
		n = 2 + hInt(2)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			s += hPick([]string{";", " ; ", ";\n\t"})
		}
		s += f.seq(f.structs)
		if act == "set-with" || f.withs > 0 && hOne(f.withs) {
			s += f.with()
		}
	}
	return s + "\n"
}

func (f *hFocus) rules() string {
	s := ""
	for n := 1 + hInt(5); n > 0; n-- {
		if hOne(10) {
			s += hPick([]string{"# comment\n", "\n", "  \n", "\\\n"})
		}
		r := f.rule()
		// a rule with a phase that is too early is an error; keep few of those
		if _, err := specParse(r, 0); err != nil && !hOne(20) {
			continue
		}
		s += r
	}
	if hOne(5) {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

func hProps(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func hSet(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func hSorted(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return strings.Join(l, " ")
}

func hNames(max int) []string {
	var l []string
	for n := hInt(max + 1); n > 0; n-- {
		l = append(l, hPick(hHosts)+".")
	}
	return l
}

func hRuleCompare(got []*Rule, want []*hRule) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d rules, expected %d", len(got), len(want))
	}
	for i, r := range got {
		w := want[i]
		if r == nil {
			return fmt.Sprintf("rule %d is nil", i)
		}
		if r.result != w.act || r.deferto != w.phase || r.requires != w.req || len(r.clauses) != len(w.clauses) {
			return fmt.Sprintf("rule %d: action %v phase %v requires %v with %d clauses, expected %v %v %v %d", i, r.result, r.deferto, r.requires, len(r.clauses), w.act, w.phase, w.req, len(w.clauses))
		}
		for j, cl := range r.clauses {
			if hProps(cl.withs) != hProps(w.clauses[j].withs) {
				return fmt.Sprintf("rule %d clause %d has options %s, expected %s", i, j, hProps(cl.withs), hProps(w.clauses[j].withs))
			}
		}
	}
	return ""
}

// hSession runs the rules through one random conversation.
func hSession(text string, steps int) string {
	hCase("rules %q", text)
	rules, err := Parse(text)
	want, werr := specParse(text, 0)
	if (err != nil) != (werr != nil) {
		return fmt.Sprintf("rules %q: error %v, expected error: %v", text, err, werr != nil)
	}
	if err != nil {
		return ""
	}
	if s := hRuleCompare(rules, want); s != "" {
		return fmt.Sprintf("rules %q: %s", text, s)
	}
	return hSessionWith(rules, want, text, steps)
}

func hSessionWith(rules []*Rule, want []*hRule, text string, steps int) string {
	hSalt = hRnd.Int63n(1000)
	trans := &smtpTransaction{}
	trans.rip, trans.lip = hPick(hIPs), hPick(hIPs)
	trans.rdns = &rDNSResults{verified: hNames(2), nofwd: hNames(1), inconsist: hNames(1)}
	if hOne(3) {
		trans.rdns = &rDNSResults{verified: hNames(2)}
	}
	trans.tlson = hOne(2)
	c := newContext(trans, rules)
	m := &hModel{rules: want, st: hState{rip: trans.rip, lip: trans.lip, rdns: trans.rdns}}
	ph := pConnect
	log := fmt.Sprintf("client %q server %q rdns %v tls %v", trans.rip, trans.lip, *trans.rdns, trans.tlson)
	for i := 0; i < steps; i++ {
		var evt smtpd.EventInfo
		evt.What = smtpd.COMMAND
		if ph == pMessage {
			evt.What = smtpd.GOTDATA
		}
		switch ph {
		case pHelo:
			evt.Cmd, evt.Arg = smtpd.EHLO, hHost()
			if hOne(2) {
				evt.Cmd = smtpd.HELO
			}
		case pMfrom:
			evt.Cmd, evt.Arg = smtpd.MAILFROM, hAddr()
			if hOne(5) {
				evt.Arg = ""
			}
		case pRto:
			evt.Cmd, evt.Arg = smtpd.RCPTTO, hAddr()
		case pData:
			evt.Cmd = smtpd.DATA
		}
		if hOne(6) {
			trans.tlson = !trans.tlson
		}
		m.st.tls = trans.tlson
		log += fmt.Sprintf("; %v %q", ph, evt.Arg)
		hCase("rules %q; %s", text, log)
		got := Decide(ph, evt, c)
		exp := m.decide(ph, evt)
		if got != exp {
			return fmt.Sprintf("rules %q; %s: result %v, expected %v", text, log, got, exp)
		}
		if hProps(c.withprops) != hProps(m.props) {
			return fmt.Sprintf("rules %q; %s: options %s, expected %s", text, log, hProps(c.withprops), hProps(m.props))
		}
		if hSorted(c.dnsblhit) != hSet(m.st.hits) {
			return fmt.Sprintf("rules %q; %s: blocklist hits %v, expected %v", text, log, c.dnsblhit, hSet(m.st.hits))
		}
		if exp != aNoresult {
			hNontriv++
		}
		ok := exp == aNoresult || exp == aAccept
		if ok {
			switch ph {
			case pHelo:
				trans.heloname, trans.from = evt.Arg, ""
				trans.rcptto = []string{}
				m.rcpts = nil
			case pMfrom:
				trans.from = evt.Arg
				trans.rcptto = []string{}
				m.rcpts = nil
			case pRto:
				trans.rcptto = append(trans.rcptto, evt.Arg)
				m.rcpts = append(m.rcpts, evt.Arg)
			}
		}
		// mostly go on, sometimes even after a refusal, since what the
		// rules say in a phase does not depend on how it was reached
		switch {
		case ph == pConnect:
			ph = pHelo
		case hOne(12):
			ph = pHelo
		case hOne(8):
			ph = pMfrom
		case ph == pHelo || ph == pMessage:
			ph = pMfrom
		case ph == pMfrom:
			ph = pRto
		case ph == pRto:
			if !hOne(3) {
				ph = pData
			}
		case ph == pData:
			ph = pMessage
		}
	}
	return ""
}

var hAllOps = strings.Fields("all tls from to helo ehlo host source ip from-has to-has helo-has dns dnsbl dbl")

func hRulesTest(t *testing.T, f *hFocus) {
	hLoop(t, 50, func() string {
		if hFileN > 400 {
			hClean()
		}
		return hSession(f.rules(), 6+hInt(8))
	})
}

func hBuf() *bufio.Writer { return bufio.NewWriter(io.Discard) }

func hClean() {
	for ; hFileN > 0; hFileN-- {
		os.Remove(fmt.Sprintf("%s/f%d", hDir, hFileN))
	}
}

// hAtoms compares a condition with one argument directly.
func hAtoms(t *testing.T, min int, f func() string) {
	end := hEnd
	hEnd = hEnd.Add(-hBudget / 2)
	hLoop(t, min, f)
	hEnd = end
}

func hWords(alpha string, max int) []string {
	out := []string{""}
	last := []string{""}
	for n := 0; n < max; n++ {
		var l []string
		for _, s := range last {
			for i := 0; i < len(alpha); i++ {
				l = append(l, s+alpha[i:i+1])
			}
		}
		out = append(out, l...)
		last = l
	}
	return out
}

func hPairs(t *testing.T, as, bs []string, f func(a, b string) string) {
	for _, a := range as {
		for _, b := range bs {
			hCases++
			a, b := a, b
			if s := hTry(func() string { return f(a, b) }); s != "" {
				hFound(s)
				t.FailNow()
			}
		}
	}
}

func TestC01(t *testing.T) {
	f := func(a, p string) string {
		hCur.Store(fmt.Sprintf("address %q pattern %q", a, p))
		if got, want := matchAddress(a, p), specMatchAddress(a, p); got != want {
			return fmt.Sprintf("matchAddress(%q, %q) = %v, expected %v", a, p, got, want)
		} else if want {
			hNontriv++
		}
		return ""
	}
	ws := hWords("a.@", 5)
	hPairs(t, ws, append(ws, "<>"), f)
	hAtoms(t, 20000, func() string {
		a := hAddr()
		p := strings.ToLower(hAddrPat())
		if hOne(3) {
			p = strings.ToLower(hMutate(a))
		}
		return f(a, p)
	})
	hRulesTest(t, &hFocus{ops: strings.Fields("from to from to all"), files: 5, structs: 1})
}

func TestC02(t *testing.T) {
	f := func(a, p string) string {
		hCur.Store(fmt.Sprintf("host %q pattern %q", a, p))
		if got, want := matchHost(a, p), specMatchHost(a, p); got != want {
			return fmt.Sprintf("matchHost(%q, %q) = %v, expected %v", a, p, got, want)
		} else if want {
			hNontriv++
		}
		return ""
	}
	ws := hWords("ab.", 5)
	hPairs(t, ws, ws, f)
	hAtoms(t, 20000, func() string {
		a, p := hHost(), strings.ToLower(hHostPat())
		if hOne(3) {
			p = strings.ToLower(hMutate(a))
		}
		return f(a, p)
	})
	hRulesTest(t, &hFocus{ops: strings.Fields("helo ehlo host source source"), files: 5, structs: 1})
}

func TestC03(t *testing.T) {
	hAtoms(t, 20000, func() string {
		a, p := hPick(hIPs), hPick(hIPPats)
		if hOne(3) {
			a = fmt.Sprintf("%d.%d.%d.%d", hInt(256), hInt(4), hInt(256), hInt(256))
			b := fmt.Sprintf("%d.%d.%d.%d", hInt(256), hInt(4), hInt(256), hInt(256))
			if hOne(2) {
				b = a
			}
			p = fmt.Sprintf("%s/%d", b, hInt(34))
		}
		if hOne(6) {
			p = hMutate(a)
		}
		if hOne(6) {
			a = hMutate(a)
		}
		p = strings.ToLower(p)
		hCur.Store(fmt.Sprintf("ip %q pattern %q", a, p))
		if got, want := matchIp(a, p), specMatchIp(a, p); got != want {
			return fmt.Sprintf("matchIp(%q, %q) = %v, expected %v", a, p, got, want)
		} else if want {
			hNontriv++
		}
		return ""
	})
	hRulesTest(t, &hFocus{ops: strings.Fields("ip ip ip all"), files: 2, structs: 1})
}

func TestC04(t *testing.T) {
	hAtoms(t, 2000, func() string {
		hSalt = int64(hInt(3000))
		a := hAddr()
		if hOne(3) {
			a = hMutate(a)
		}
		if hOne(8) {
			a = hChars("a.@<>\"]", 6)
		}
		c := newContext(&smtpTransaction{rdns: &rDNSResults{}}, nil)
		hCase("address %q", a)
		for i := 0; i < 2; i++ {
			if got, want := getAddrOpts(a, c), specAddrOpts(a); got != want {
				return fmt.Sprintf("getAddrOpts(%q) = %v, expected %v (salt %d)", a, got, want, hSalt)
			}
		}
		hNontriv++
		return ""
	})
	hRulesTest(t, &hFocus{ops: strings.Fields("from-has to-has from-has to-has dbl"), structs: 1})
}

func TestC05(t *testing.T) {
	hAtoms(t, 20000, func() string {
		c := newContext(&smtpTransaction{rip: hPick(hIPs), lip: hPick(hIPs), rdns: &rDNSResults{verified: hNames(2), nofwd: hNames(1), inconsist: hNames(1)}}, nil)
		c.heloname = hHost()
		switch hInt(6) {
		case 0:
			c.heloname = "[" + c.trans.rip + "]"
		case 1:
			c.heloname = c.trans.lip
		case 2:
			c.heloname = hMutate(c.heloname)
		}
		c.helocmd = smtpd.HELO
		if hOne(2) {
			c.helocmd = smtpd.EHLO
		}
		hCur.Store(fmt.Sprintf("helo %q client %q server %q", c.heloname, c.trans.rip, c.trans.lip))
		if got, want := heloGetter(c), specHeloOpts(c.helocmd, c.heloname, c.trans.rip, c.trans.lip); got != want {
			return fmt.Sprintf("heloGetter(%v %q, client %q, server %q) = %v, expected %v", c.helocmd, c.heloname, c.trans.rip, c.trans.lip, got, want)
		}
		if got, want := dnsGetter(c), specDnsOpts(c.trans.rdns); got != want {
			return fmt.Sprintf("dnsGetter(%v) = %v, expected %v", *c.trans.rdns, got, want)
		}
		hNontriv++
		return ""
	})
	hRulesTest(t, &hFocus{ops: strings.Fields("helo-has helo-has dns"), structs: 1})
}

func TestC06(t *testing.T) {
	hRulesTest(t, &hFocus{ops: strings.Fields("all tls tls from to helo host source ip helo-has dns to"), files: 3, structs: 3, withs: 3})
}

func TestC07(t *testing.T) {
	hRulesTest(t, &hFocus{ops: strings.Fields("all tls from to to to helo from-has helo-has dns to-has"), files: 8, structs: 1, phases: true, withs: 3})
}

func TestC08(t *testing.T) {
	hLoop(t, 50, func() string {
		f := &hFocus{ops: strings.Fields("all all tls from to helo from-has dnsbl"), structs: 1, phases: true, withs: 2}
		s := f.rules()
		if hOne(2) {
			s += hPick([]string{"reject from <>\n", "stall from <> with message later savedir x\n", "@from stall all\n", "@from reject from <> with note n make-yakker\n", "reject dnsbl bl.test with message bl\n"})
		}
		return hSession(s, 10+hInt(8))
	})
}

func TestC09(t *testing.T) {
	hRulesTest(t, &hFocus{ops: strings.Fields("all tls from to helo dns"), files: 8, structs: 1, phases: true, withs: 1})
}

func TestC11(t *testing.T) {
	hRulesTest(t, &hFocus{ops: hAllOps, structs: 3, phases: true})
}

func TestC22(t *testing.T) {
	hRulesTest(t, &hFocus{ops: strings.Fields("dnsbl dbl dnsbl dbl all"), structs: 1})
}

func TestC12(t *testing.T) {
	var words []string
	for k := range hKeywords {
		if k != "include" {
			words = append(words, k)
		}
	}
	sort.Strings(words)
	words = append(words, strings.Fields("( ) , ; ( ) or not with with reject set-with all all a.b x@y 1.2.3.4 /f \"s\"")...)
	words = append(words, "\n", "\n", ";\n", "\"\"", "\"a\nb\"")
	f := &hFocus{ops: hAllOps, structs: 3, phases: true, withs: 2}
	// every short sequence after an action
	small := strings.Fields("all not or ( ) ; with message x from to-has bad , make-yakker")
	for _, a := range small {
		for _, b := range small {
			for _, c := range small {
				for _, d := range append(small, "") {
					s := "reject " + a + " " + b + " " + c + " " + d
					hCases++
					if r := hTry(func() string { return hParseOnly(s) }); r != "" {
						hFound(r)
						t.FailNow()
					}
				}
			}
		}
	}
	for _, s := range []string{"", "\n", "set-with all", "set-with all with", "set-with all with note n; all", "reject all;", "reject all;\n", "reject ; all", "reject (all", "reject )", "reject ()", "reject all or", "reject or all",
		"reject all with", "reject all with with", "reject all with message a message b", "reject all with note \"a\nb\"", "reject all with tls-opt on", "reject all with tls-opt off tls-opt off", "reject all with make-yakker make-yakker", "reject tls", "reject tls maybe",
		"reject dns", "reject dns good,", "reject dns good,bad", "reject dnsbl nodot", "reject dbl host", "reject dbl x a.b", "reject ip 1.2.3", "reject ip 1.2.3.4/33", "reject ip all", "@from reject to a@b", "@helo reject tls on", "@to reject all", "@any reject all", "reject", "@from", "foo", "reject all accept all",
		"reject from", "reject from\n", "reject \"helo\" x", "include", "include /nonexistent", "reject all\n@", "reject not", "reject not not all", "reject not (all or) all"} {
		hCases++
		if r := hTry(func() string { return hParseOnly(s) }); r != "" {
			hFound(r)
			t.FailNow()
		}
	}
	inc := hFile("reject all\n")
	for _, x := range strings.Fields("extra \"x\" all reject with ; , ( ) not include accept;all") {
		for _, s := range []string{"include " + inc + " " + x, "include " + inc + " " + x + "\nreject all\n", "reject all\ninclude " + inc + "\n" + x, "include " + x + " " + inc, "include " + inc + " " + inc, "include " + inc + "\ninclude " + inc} {
			hCases++
			if r := hTry(func() string { return hParseOnly(s) }); r != "" {
				hFound(r)
				t.FailNow()
			}
		}
	}
	hLoop(t, 50, func() string {
		if hFileN > 400 {
			hClean()
		}
		switch hInt(3) {
		case 0:
			s := hPick([]string{"reject ", "@to accept ", "set-with ", "stall ", ""})
			for n := 1 + hInt(9); n > 0; n-- {
				s += hPick(words) + hPick([]string{" ", " ", " ", ""})
			}
			return hSession(s, 4)
		case 1:
			// a rules text with one token changed
			s := f.rules()
			tk := specLex(s)
			x := tk[hInt(len(tk))]
			w := hPick(words)
			end := x.pos + len(x.val)
			if x.kind == "str" || end > len(s) || x.pos > len(s) {
				return hSession(s, 6)
			}
			switch hInt(3) {
			case 0:
				s = s[:x.pos] + s[end:]
			case 1:
				s = s[:x.pos] + " " + w + " " + s[x.pos:]
			case 2:
				s = s[:x.pos] + w + s[end:]
			}
			return hSession(s, 6)
		}
		return hSession(f.rules(), 8)
	})
}

func hParseOnly(s string) string {
	hCur.Store(fmt.Sprintf("rules %q", s))
	rules, err := Parse(s)
	want, werr := specParse(s, 0)
	if (err != nil) != (werr != nil) {
		return fmt.Sprintf("rules %q: error %v, expected error: %v", s, err, werr != nil)
	}
	if err != nil {
		return ""
	}
	hNontriv++
	if r := hRuleCompare(rules, want); r != "" {
		return fmt.Sprintf("rules %q: %s", s, r)
	}
	return ""
}

// ---- C13

func hLexCompare(s string) string {
	hCur.Store(fmt.Sprintf("text %q", s))
	var got []hTok
	l := lex(s)
	for i := 0; ; i++ {
		it, ok := <-l.items
		if !ok {
			break
		}
		if i > 2*len(s)+5 {
			return fmt.Sprintf("text %q: more tokens than text", s)
		}
		tk := hTok{val: it.val, pos: it.pos}
		switch it.typ {
		case itemError:
			tk.kind, tk.val = "error", ""
		case itemEOF:
			tk.kind = "eof"
		case itemEOL:
			tk.kind = "eol"
		case itemComma:
			tk.kind = ","
		case itemLparen:
			tk.kind = "("
		case itemRparen:
			tk.kind = ")"
		case itemSemicolon:
			tk.kind = ";"
		case itemValue:
			tk.kind = "value"
		case itemFilename:
			tk.kind = "file"
		default:
			tk.kind = "word"
			if hKeywords[it.val] && keywords[it.val] != it.typ {
				tk.kind = "wrong keyword"
			}
		}
		got = append(got, tk)
	}
	want := specLex(s)
	for i := range want {
		if want[i].kind == "str" {
			want[i].kind = "value"
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("text %q: tokens %q, expected %q", s, got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("text %q: token %d is %q, expected %q", s, i, got[i], want[i])
		}
	}
	if len(want) > 2 {
		hNontriv++
	}
	return ""
}

func TestC13(t *testing.T) {
	for _, s := range hWords("a \"\\\n,#", 6) {
		hCases++
		if r := hTry(func() string { return hLexCompare(s) }); r != "" {
			hFound(r)
			t.FailNow()
		}
	}
	var kw []string
	for k := range hKeywords {
		kw = append(kw, k)
	}
	sort.Strings(kw)
	seen := map[itemType]string{}
	for _, k := range kw {
		if r := hLexCompare(k); r != "" {
			hFound(r)
			t.FailNow()
		}
		l := lex(k)
		it := <-l.items
		l.drain()
		if seen[it.typ] != "" {
			hFound(fmt.Sprintf("keywords %q and %q are the same kind of token", k, seen[it.typ]))
			t.FailNow()
		}
		seen[it.typ] = k
	}
	// every byte, alone, in a word, quoted and escaped
	for b := 0; b < 256; b++ {
		x := string([]byte{byte(b)})
		for _, s := range []string{x, "a" + x + "c", "a " + x + "c", "\"" + x + "\"", "\"a\\" + x + "c\"", "\"a\\" + x + "\" d", "\\" + x, "a \\" + x + "c", "a," + x + "c", "file:" + x, "#" + x + "\nb"} {
			hCases++
			if r := hTry(func() string { return hLexCompare(s) }); r != "" {
				hFound(r)
				t.FailNow()
			}
		}
	}
	pieces := append(kw, "(", ")", ",", ";", "\n", " ", "\t", " \\\n", "\\\n", "\\", "#", "# c\n", "\n#x", "\"a b\"", "\"", "\"\\\"\"", "\"\\\\\"", "\"a\\b\"", "\"\n\"", "file:", "file:x", "/f", "./g", ".", "/", "fil", "file", "x@y.z", "\r", "\v", "\x00", "\xff", "é", "a\\", "a\"b", "\"\"")
	hLoop(t, 100, func() string {
		s := ""
		for n := 1 + hInt(12); n > 0; n-- {
			s += hPick(pieces)
			if hOne(3) {
				s += hPick([]string{" ", "\t", "\n"})
			}
		}
		return hLexCompare(s)
	})
}
