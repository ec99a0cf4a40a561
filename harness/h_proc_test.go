package main

// Whole conversations through process(), and the parts around it.

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha1"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/mail"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/siebenmann/smtpd"
)

// ---- a scripted client

type hAddrT string

func (a hAddrT) Network() string { return "tcp" }
func (a hAddrT) String() string  { return string(a) }

type hReplyT struct {
	kind int
	text string
}

type hConn struct {
	local, remote string
	closed        bool
	next          func(c *smtpd.Conn) smtpd.EventInfo
	onReply       func(c *smtpd.Conn, kind int, text string)
	fails         []string
}

func (c *hConn) Read(b []byte) (int, error)          { return 0, io.EOF }
func (c *hConn) Write(b []byte) (int, error)         { return len(b), nil }
func (c *hConn) Close() error                        { c.closed = true; return nil }
func (c *hConn) LocalAddr() net.Addr                 { return hAddrT(c.local) }
func (c *hConn) RemoteAddr() net.Addr                { return hAddrT(c.remote) }
func (c *hConn) SetDeadline(t time.Time) error       { return nil }
func (c *hConn) SetReadDeadline(t time.Time) error   { return nil }
func (c *hConn) SetWriteDeadline(t time.Time) error  { return nil }
func (c *hConn) XNext(s *smtpd.Conn) smtpd.EventInfo { return c.next(s) }
func (c *hConn) XReply(s *smtpd.Conn, kind int, text string) {
	if c.onReply != nil {
		c.onReply(s, kind, text)
	}
}
func (c *hConn) XFail(s *smtpd.Conn, what string) { c.fails = append(c.fails, what) }

func hSha(s string) string { return fmt.Sprintf("%x", sha1.Sum([]byte(s))) }

func hBodyHash(data string) string {
	m, err := mail.ReadMessage(strings.NewReader(data))
	if err != nil {
		return "<cannot-parse-message>"
	}
	b, err := io.ReadAll(m.Body)
	if err != nil {
		return "<cannot-read-body?>"
	}
	return hSha(string(b))
}

// specMeta is a save file without its id line.
func specMeta(tr *smtpTransaction) string {
	var b strings.Builder
	r := tr.rip
	if r == "" {
		r = tr.raddr.String()
	}
	fmt.Fprintf(&b, "remote %s to %s with helo '%s'\n", r, tr.laddr.String(), tr.heloname)
	for _, x := range []struct {
		n string
		l []string
	}{{"remote-dns", tr.rdns.verified}, {"remote-dns-nofwd", tr.rdns.nofwd}, {"remote-dns-inconsist", tr.rdns.inconsist}} {
		if len(x.l) > 0 {
			b.WriteString(x.n + " " + strings.Join(x.l, " ") + "\n")
		}
	}
	if tr.tlson {
		fmt.Fprintf(&b, "tls on cipher 0x%04x", tr.cipher)
		if n := cipherNames[tr.cipher]; n != "" {
			b.WriteString(" name " + n)
		}
		v := map[uint16]string{0x300: "SSLv3", 0x301: "TLSv1.0", 0x302: "TLSv1.1", 0x303: "TLSv1.2", 0x304: "TLSv1.3"}[tr.tlsversion]
		if v == "" {
			v = fmt.Sprintf("tls-0x%04x", tr.tlsversion)
		}
		b.WriteString(" proto " + v)
		if tr.servername != "" {
			b.WriteString(" server-name '" + tr.servername + "'")
		}
		if tr.peername != "" {
			b.WriteString(" client-name '" + tr.peername + "'")
		}
		if tr.tlsverified {
			b.WriteString(" client-name-verified")
		}
		b.WriteString("\n")
	}
	b.WriteString("from <" + tr.from + ">\n")
	for _, a := range tr.rcptto {
		b.WriteString("to <" + a + ">\n")
	}
	fmt.Fprintf(&b, "hash %s bytes %d\nbodyhash %s\nbody\n%s", tr.hash, len(tr.data), tr.bodyhash, tr.data)
	return b.String()
}

func specID(prefix string, tr *smtpTransaction) string {
	return fmt.Sprintf("id %s %s %s\n", prefix, tr.raddr.String(), tr.when.Format("2006-01-02 15:04:05"))
}

func hData() string {
	switch hInt(7) {
	case 0:
		return ""
	case 1:
		return "no headers at all"
	case 2:
		return hChars("ab:\r\n\x00\xff", 60)
	case 3:
		return "Subject: x\r\n\r\n" + strings.Repeat("0123456789abcdef\r\n", hInt(1200))
	case 4:
		return "body\nfrom <x>\nbody\n%s %d\n"
	}
	return "From: a\nSubject: " + hChars("abc", 4) + "\n\nbody " + hChars("abc\n", 30)
}

func hEnvelope() *smtpTransaction {
	tr := &smtpTransaction{rip: hPick(hIPs), lip: "192.0.2.1", raddr: hAddrT("198.51.100.3:1234"), laddr: hAddrT("192.0.2.1:25")}
	tr.rdns = &rDNSResults{verified: hNames(2), nofwd: hNames(2), inconsist: hNames(2)}
	tr.heloname, tr.from = hHost(), hAddr()
	for n := hInt(4); n > 0; n-- {
		tr.rcptto = append(tr.rcptto, hAddr())
	}
	tr.data = hData()
	tr.hash, tr.bodyhash = hSha(tr.data), hBodyHash(tr.data)
	tr.when = time.Unix(int64(1e9+hInt(1e8)), 0)
	if hOne(2) {
		tr.tlson = true
		tr.tlsversion = []uint16{0x301, 0x302, 0x303, 0x304, 0x305, 0x300}[hInt(6)]
		tr.cipher = []uint16{0, 0x1301, 0x002f, 0xc02f, 5}[hInt(5)]
		tr.servername = hPick([]string{"", "sn"})
		tr.peername = hPick([]string{"", "pn"})
		tr.tlsverified = hOne(2)
	}
	return tr
}

var hLim syscall.Rlimit

// hLimit makes writes beyond n bytes of a file fail; a negative number removes the limit.
func hLimit(n int) {
	if hLim.Max == 0 {
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &hLim)
	}
	l := hLim
	if n >= 0 {
		l.Cur = uint64(n)
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
}

func hSaveDir() string {
	d, err := os.MkdirTemp(hDir, "save")
	if err != nil {
		panic(err)
	}
	return d
}

func hFiles(dir string) map[string]string {
	m := map[string]string{}
	l, _ := filepath.Glob(dir + "/*")
	for _, f := range l {
		b, _ := os.ReadFile(f)
		m[filepath.Base(f)] = string(b)
	}
	return m
}

func hHandle(faults bool) string {
	tr := hEnvelope()
	hashtype = hPick([]string{"msg", "full", "all"})
	prefix := hPick([]string{"12/3", "1/1", "99/12"})
	d := hSaveDir()
	defer os.RemoveAll(d)
	tr.savedir = d
	whole := specID(prefix, tr) + specMeta(tr)
	want := map[string]string{"msg": hSha(tr.data), "full": hSha(specMeta(tr)), "all": hSha(whole)}[hashtype]
	how := "plain"
	old := ""
	lim := -1
	if faults {
		how = hPick([]string{"plain", "none", "exists", "exists", "limit", "limit", "nodir", "notdir", "isdir"})
	}
	switch how {
	case "none":
		tr.savedir = ""
	case "exists":
		old = hPick([]string{"", "something", whole, whole + "x"})
		os.WriteFile(d+"/"+want, []byte(old), 0600)
	case "limit":
		lim = hInt(len(whole))
	case "nodir":
		tr.savedir = d + "/no"
	case "notdir":
		os.WriteFile(d+"/file", nil, 0600)
		tr.savedir = d + "/file"
	case "isdir":
		os.Mkdir(d+"/"+want, 0700)
	}
	var log bytes.Buffer
	var lw io.Writer = &log
	hCase("save (%s, hash %s, limit %d) of %q", how, hashtype, lim, whole)
	desc := fmt.Sprintf("saving (%s, hash %s, limit %d) %q", how, hashtype, lim, whole)
	if lim >= 0 {
		hLimit(lim)
	}
	name, err := func() (string, error) {
		defer hLimit(-1)
		return handleMessage(prefix, tr, lw)
	}()
	files := hFiles(d)
	if !strings.Contains(log.String(), "<"+tr.from+"> to") || !strings.Contains(log.String(), tr.hash) {
		return desc + ": not logged: " + log.String()
	}
	hNontriv++
	switch how {
	case "none":
		if err != nil || len(files) != 0 {
			return fmt.Sprintf("%s without a save directory: error %v files %v", desc, err, files)
		}
	case "plain":
		if err != nil || name != want || len(files) != 1 || files[want] != whole {
			return fmt.Sprintf("%s: error %v name %s (expected %s) content %q", desc, err, name, want, files)
		}
	case "exists", "isdir":
		if err != nil || name != want || len(files) != 1 || files[want] != old {
			return fmt.Sprintf("%s where it exists with %q: error %v name %s (expected %s), content %q", desc, old, err, name, want, files)
		}
	case "limit":
		if err == nil {
			return fmt.Sprintf("%s with writing failing after %d bytes: no error, content %q", desc, lim, files)
		}
		// what is left must not look like a saved message later
		tr.savedir = d
		if _, err := handleMessage(prefix, tr, lw); err != nil || hFiles(d)[want] != whole {
			return fmt.Sprintf("%s again after writing failed at %d bytes: error %v content %q", desc, lim, err, hFiles(d))
		}
	default:
		if err == nil {
			return desc + ": no error"
		}
	}
	return ""
}

func TestC15(t *testing.T) {
	end := hEnd
	hEnd = hEnd.Add(-hBudget / 2)
	hLoop(t, 100, func() string {
		tr := hEnvelope()
		hCase("details of %+v", *tr)
		m, h := msgDetails("12/3", tr)
		meta := specMeta(tr)
		if want := specID("12/3", tr) + meta; string(m) != want {
			return fmt.Sprintf("save file is %q, expected %q", m, want)
		}
		if h != hSha(meta) {
			return fmt.Sprintf("hash of %q is %s, expected %s", meta, h, hSha(meta))
		}
		a, b := getHashes(tr)
		if a != hSha(tr.data) || b != hBodyHash(tr.data) {
			return fmt.Sprintf("hashes of %q are %s %s, expected %s %s", tr.data, a, b, hSha(tr.data), hBodyHash(tr.data))
		}
		return hHandle(false)
	})
	hEnd = end
	hLoop(t, 20, func() string { return hTalk("save") })
}

func TestC14(t *testing.T) {
	end := hEnd
	hEnd = hEnd.Add(-hBudget / 2)
	hLoop(t, 100, func() string { return hHandle(true) })
	hEnd = end
	hLoop(t, 20, func() string { return hTalk("save") })
}

// ---- certificates

var hCerts []string // alternating certificate and key files

func hMakeCerts() {
	if hCerts != nil {
		return
	}
	for i := 0; i < 2; i++ {
		k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		if err != nil {
			panic(err)
		}
		tpl := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: fmt.Sprintf("cert%d", i)}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"x"}}
		der, err := x509.CreateCertificate(crand.Reader, tpl, tpl, &k.PublicKey, k)
		if err != nil {
			panic(err)
		}
		kb, _ := x509.MarshalECPrivateKey(k)
		cf, kf := fmt.Sprintf("%s/c%d.pem", hDir, i), fmt.Sprintf("%s/k%d.pem", hDir, i)
		os.WriteFile(cf, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
		os.WriteFile(kf, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600)
		hCerts = append(hCerts, cf, kf)
	}
}

func hLoadCert(i int) []tls.Certificate {
	hMakeCerts()
	c, err := tls.LoadX509KeyPair(hCerts[2*i], hCerts[2*i+1])
	if err != nil {
		panic(err)
	}
	return []tls.Certificate{c}
}

func hX509(i int) *x509.Certificate {
	c, err := x509.ParseCertificate(hLoadCert(i)[0].Certificate[0])
	if err != nil {
		panic(err)
	}
	return c
}

// ---- whole conversations

// hTalk runs one or more connections through process() and compares with the model.
// focus: save, reply, envelope, yak, tls, conn or any
func hTalk(focus string) string {
	if hFileN > 400 {
		hClean()
	}
	hSalt = int64(hInt(1000))
	rip := hPick([]string{"192.0.2.7", "198.51.100.3", "203.0.113.9", "2001:db8::1"})
	remote := net.JoinHostPort(rip, "4321")
	if hOne(30) {
		remote, rip = "strange", ""
	}
	local := hPick([]string{"192.0.2.1:25", "10.0.0.1:2525", "[2001:db8::9]:25"})
	f := &hFocus{ops: strings.Fields("all all from to helo tls from-has to-has host"), structs: 1, phases: true, withs: 2}
	switch focus {
	case "yak":
		f.ops = strings.Fields("helo from to all")
	}
	sdir := hSaveDir()
	sdir2 := hSaveDir()
	defer os.RemoveAll(sdir)
	defer os.RemoveAll(sdir2)
	text := ""
	for n := hInt(4); n > 0; n-- {
		r := f.rule()
		r = strings.ReplaceAll(r, "savedir four", "savedir "+sdir2)
		r = strings.ReplaceAll(r, "savedir two", "savedir "+sdir+"/missing")
		for _, x := range []string{"savedir \"m 1\"", "savedir \"three \\\" \\\\\"", "savedir from"} {
			r = strings.ReplaceAll(r, x, "savedir "+sdir2)
		}
		r = strings.ReplaceAll(r, "message two", "message \"100% %d %s\"")
		if _, err := specParse(r, 0); err != nil {
			continue
		}
		text += r
	}
	if hOne(3) {
		text += hPick([]string{"@message reject all\n", "@data stall all\n", "@message stall all with message wait\n", "@to reject to-has bad\n", "@connect set-with all with tls-opt off\n", "@connect set-with all with tls-opt no-client\n", "@from accept all with message ok\n", "@helo reject helo-has none\n", "@message accept all with message \"thanks %s\"\n",
			"@connect reject host .example.com\n", "@connect stall all\n", "@message reject all with message no\n"})
	}
	bad := false
	if hOne(25) {
		text += "reject nonsense\n"
		bad = true
	}
	want, err := specParse(text, 0)
	if (err != nil) != bad {
		return ""
	}
	if bad {
		want, _ = specParse("stall all", 0)
	}
	rf := hFile(text)
	rulefiles = []string{rf}
	if text == "" && hOne(2) {
		rulefiles = nil
	}
	hashtype = hPick([]string{"msg", "full", "all"})
	savedir = sdir
	if hOne(4) {
		savedir = ""
	}
	minphase = hPick([]string{"helo", "from", "to", "data", "message", "accepted"})
	yakTimeout = 8 * time.Hour
	yakCount = 0
	if focus == "yak" || hOne(3) {
		yakCount = 1 + hInt(3)
	}
	goslow, srvname, connfile = false, "", ""
	if hOne(2) {
		srvname = "my.name"
	}
	yakkers = &ipMap{ips: make(map[string]*ipEnt)}
	notls = &ipMap{ips: make(map[string]*ipEnt)}
	var certs []tls.Certificate
	if focus == "tls" || focus == "conn" || hOne(3) {
		if !hOne(4) {
			certs = hLoadCert(0)
		}
	}
	wantCerts, wantName := certs, srvname
	if focus == "conn" || hOne(10) {
		text, ents, cerr := hConnText(local)
		connfile = hFile(text)
		if hOne(15) {
			connfile = hDir + "/nosuch"
			cerr, ents = true, nil
		}
		if !cerr {
			for _, e := range ents {
				if hLocalMatch(e.local, local) {
					if e.name != "" {
						wantName = e.name
					}
					wantCerts = e.certs
					break
				}
			}
		}
	}
	logon := !hOne(4)
	yakN := 0 // model: count in the table
	if focus == "yak" && rip != "" && hOne(3) {
		yakN = hInt(yakCount + 2)
		if yakN > 0 {
			e := &ipEnt{when: time.Now().Add(-time.Duration(hInt(7)) * time.Hour), count: yakN}
			if hOne(4) {
				e.when = time.Now().Add(-9 * time.Hour)
				yakN = 0
			}
			yakkers.ips[rip] = e
		}
	}
	tlsN := 0
	if focus == "tls" || hOne(6) {
		tlsN = hInt(4)
		if tlsN > 0 && rip != "" {
			e := &ipEnt{when: time.Now().Add(-time.Duration(hInt(71)) * time.Hour), count: tlsN}
			if hOne(4) {
				e.when = time.Now().Add(-73 * time.Hour)
				tlsN = 0
			}
			notls.ips[rip] = e
		} else {
			tlsN = 0
		}
	}
	if hOne(3) {
		other := &ipEnt{when: time.Now(), count: 9}
		yakkers.ips["192.0.2.99"] = other
	}
	nconn := 1
	if focus == "yak" || hOne(8) {
		nconn = 1 + hInt(5)
	}
	trace := fmt.Sprintf("rules %q client %s server %s savedir %v hash %s minphase %s dncount %d logging %v tlsfailures %d yakcount %d", text, remote, local, savedir != "", hashtype, minphase, yakCount, logon, tlsN, yakN)
	if connfile != "" {
		b, _ := os.ReadFile(connfile)
		trace += fmt.Sprintf(" connfile %q", b)
	}
	for k := 0; k < nconn; k++ {
		s := hOneConn(&trace, focus, k+1, remote, local, rip, certs, wantCerts, wantName, want, bad, logon, &yakN, &tlsN)
		if s != "" {
			return s + " in " + trace
		}
	}
	if e := yakkers.ips["192.0.2.99"]; e != nil && e.count != 9 {
		return "another client's entry changed in " + trace
	}
	return ""
}

func hOneConn(tracep *string, focus string, cid int, remote, local, rip string, certs, wantCerts []tls.Certificate, wantName string, want []*hRule, bad, logon bool, yakN, tlsN *int) (out string) {
	nc := &hConn{local: local, remote: remote}
	var mlog, slog bytes.Buffer
	var sw, dw io.Writer
	if logon {
		sw = &slog
		if hOne(2) {
			dw = &bytes.Buffer{}
		}
	}
	fail := func(format string, a ...interface{}) {
		if out == "" {
			out = fmt.Sprintf(format, a...)
		}
	}
	lip, _, _ := net.SplitHostPort(local)
	rdns := specRDNS(rip)
	m := &hModel{rules: want, st: hState{rip: rip, lip: lip, rdns: rdns}}
	stalled := yakCount > 0 && *yakN >= yakCount && logon
	if stalled {
		m.rules, _ = specParse("stall all", 0)
	}
	counts := !bad && yakCount > 0 && !stalled && rip != ""
	reached, makeyak, ended := false, false, false
	sd := savedir
	helo, from := "", ""
	var rcpts []string
	tlson, tlsoffered := false, false
	expKind, expText, expIDs := -1, "", ""
	var evt smtpd.EventInfo
	first := true
	steps := 3 + hInt(14)
	stage := 0 // 0 no helo, 1 helo, 2 mail, 3 rcpt, 4 data
	props := func() {
		if v := m.props["savedir"]; v != "" {
			sd = v
		}
		if _, ok := m.props["make-yakker"]; ok {
			makeyak = true
		}
		if o := m.props["tls-opt"]; o == "off" {
			tlsoffered = false
		}
	}
	trans := func() *smtpTransaction {
		return &smtpTransaction{raddr: hAddrT(remote), laddr: hAddrT(local), rip: rip, lip: lip, rdns: rdns, heloname: helo, from: from, rcptto: rcpts}
	}
	connect := m.decide(pConnect, smtpd.EventInfo{})
	auth := tls.NoClientCert
	tlsoffered = len(wantCerts) > 0 && *tlsN < 2
	if tlsoffered && *tlsN == 0 {
		auth = tls.RequestClientCert
	}
	props()
	if m.props["tls-opt"] == "no-client" {
		auth = tls.NoClientCert
	}
	before := map[string]map[string]string{}
	dirs := []string{}
	for _, d := range append([]string{savedir}, hRuleDirs(want)...) {
		if d != "" && before[d] == nil {
			before[d] = hFiles(d)
			dirs = append(dirs, d)
		}
	}
	check := func(c *smtpd.Conn) {
		// after the connection phase
		if (c.Config.TLSConfig != nil) != tlsoffered {
			fail("TLS offered: %v, expected %v", c.Config.TLSConfig != nil, tlsoffered)
			return
		}
		if tlsoffered {
			if c.Config.TLSConfig.ClientAuth != auth {
				fail("client certificate mode %v, expected %v", c.Config.TLSConfig.ClientAuth, auth)
			}
			if len(c.Config.TLSConfig.Certificates) != len(wantCerts) || string(c.Config.TLSConfig.Certificates[0].Certificate[0]) != string(wantCerts[0].Certificate[0]) {
				fail("wrong certificates")
			}
		}
		if wantName != "" && c.Config.LocalName != wantName {
			fail("server name %q, expected %q", c.Config.LocalName, wantName)
		}
		if wantName == "" && c.Config.LocalName != hLocalName(local) {
			fail("server name %q, expected %q", c.Config.LocalName, hLocalName(local))
		}
	}
	envelope := func(text, what string, data string) {
		pos := 0
		for _, x := range append([]string{"<" + from + "> to"}, hBrack(rcpts)...) {
			i := strings.Index(text[pos:], x)
			if i < 0 {
				fail("%s lacks %q: %q", what, x, text)
				return
			}
			pos += i + len(x)
		}
		if strings.Count(text, " <")-strings.Count(from, " <") < len(rcpts) || !strings.Contains(text, fmt.Sprintf("message %d bytes hash %s body %s", len(data), hSha(data), hBodyHash(data))) || !strings.Contains(text, "helo '"+helo+"'") || !strings.Contains(text, remote) {
			fail("%s is wrong: %q", what, text)
		}
		rest := text[pos:]
		if !strings.HasPrefix(rest, ": message") {
			fail("%s has other recipients: %q, expected %q", what, text, rcpts)
		}
	}
	nc.onReply = func(c *smtpd.Conn, kind int, text string) {
		*tracep += fmt.Sprintf(" -> %d %q", kind, text)
		if expKind < 0 {
			fail("a reply where there should be none")
			return
		}
		if kind != expKind {
			fail("reply kind %d (%q), expected %d", kind, text, expKind)
			return
		}
		if expText != "" && !(smtpd.XGreets(evt) && kind == smtpd.XAccept) {
			if text != expText && !strings.HasPrefix(text, expText+"\n") {
				fail("reply text %q, expected %q", text, expText)
			}
		}
		if expIDs != "" && !strings.Contains(text, expIDs) {
			fail("reply text %q lacks the message ID %s", text, expIDs)
		}
		if evt.What == smtpd.GOTDATA {
			// logged and saved before any reply
			l := strings.Split(strings.TrimSuffix(mlog.String(), "\n"), "\n")
			if !strings.Contains(mlog.String(), hSha(evt.Arg)) {
				fail("reply before the message was logged")
			}
			_ = l
		}
	}
	var saved func() // run after the reply to a message
	nc.next = func(c *smtpd.Conn) smtpd.EventInfo {
		if first {
			first = false
			if connect == aReject {
				fail("connection not dropped on reject")
			}
			check(c)
		}
		if saved != nil {
			saved()
			saved = nil
		}
		if ended && out == "" {
			fail("conversation goes on after it ended")
		}
		if out != "" || steps <= 0 {
			evt = smtpd.EventInfo{What: smtpd.ABORT}
			if hOne(2) {
				evt.What = smtpd.DONE
			}
			return evt
		}
		steps--
		evt = smtpd.EventInfo{What: smtpd.COMMAND}
		ph := pAny
		x := hInt(20)
		switch {
		case stage == 4:
			evt.What, evt.Arg = smtpd.GOTDATA, hData()
			ph = pMessage
			if hOne(8) {
				evt = smtpd.EventInfo{What: smtpd.ABORT}
				ended = true
				return evt
			}
		case stage == 0 || x == 0:
			evt.Cmd, evt.Arg = smtpd.EHLO, hHost()
			if hOne(2) {
				evt.Cmd = smtpd.HELO
			}
			ph = pHelo
			if !c.TLSOn && c.Config.TLSConfig != nil && hOne(3) {
				c.TLSOn = true
				c.TLSState = tls.ConnectionState{Version: 0x303, CipherSuite: 0xc02f, ServerName: hPick([]string{"", "sn"})}
				if hOne(2) {
					c.TLSState.PeerCertificates = []*x509.Certificate{hX509(hInt(2))}
					if hOne(2) {
						c.TLSState.VerifiedChains = [][]*x509.Certificate{{c.TLSState.PeerCertificates[0]}}
					}
				}
			}
		case x == 1 && !c.TLSOn:
			evt = smtpd.EventInfo{What: smtpd.TLSERROR}
		case stage == 1 || x == 2:
			evt.Cmd, evt.Arg = smtpd.MAILFROM, hAddr()
			ph = pMfrom
		case stage == 2 || x < 9:
			evt.Cmd, evt.Arg = smtpd.RCPTTO, hAddr()
			ph = pRto
		default:
			evt.Cmd = smtpd.DATA
			ph = pData
		}
		*tracep += fmt.Sprintf("; %v %q", ph, evt.Arg)
		if evt.What == smtpd.TLSERROR {
			*tracep += "TLSERROR"
		}
		hCur.Store(*tracep)
		expKind, expText, expIDs = -1, "", ""
		if evt.What == smtpd.TLSERROR {
			counts = false
			*tlsN++
			return evt
		}
		hNontriv++
		if ph == pMessage {
			tlson = c.TLSOn
			m.st.tls = tlson
			if minphase == "message" {
				reached = true
			}
			stage = 1
			tr := trans()
			tr.data, tr.hash, tr.bodyhash = evt.Arg, hSha(evt.Arg), hBodyHash(evt.Arg)
			tr.tlson = tlson
			tr.cipher, tr.tlsversion, tr.servername = c.TLSState.CipherSuite, c.TLSState.Version, c.TLSState.ServerName
			if n := len(c.TLSState.PeerCertificates); n > 0 {
				tr.peername = c.TLSState.PeerCertificates[0].Subject.CommonName
				tr.tlsverified = len(c.TLSState.VerifiedChains) > 0
			}
			dir := sd
			meta := specMeta(tr)
			saveOK := dir == "" || hIsDir(dir)
			name := map[string]string{"msg": tr.hash, "full": hSha(meta)}[hashtype]
			logat := mlog.Len()
			res := aError
			if saveOK {
				res = m.decide(pMessage, evt)
				props()
				expText = m.props["message"]
				expKind = map[Action]int{aAccept: smtpd.XAccept, aNoresult: smtpd.XAccept, aReject: smtpd.XReject, aStall: smtpd.XTempfail}[res]
				if expKind == smtpd.XAccept && minphase == "accepted" {
					reached = true
				}
				if expKind != smtpd.XTempfail {
					expIDs = name
					if dir == "" {
						expIDs = tr.hash
					}
				}
			} else {
				expKind = smtpd.XTempfail
				reached = true
			}
			prev := map[string]string{}
			if dir != "" {
				prev = hFiles(dir)
			}
			data := evt.Arg
			saved = func() {
				l := mlog.String()[logat:]
				if strings.Count(l, "\n") != 1+strings.Count(from+helo+strings.Join(rcpts, ""), "\n") {
					fail("a message must be logged once: %q", l)
				}
				envelope(l, "log entry", data)
				if dir == "" || !saveOK {
					return
				}
				now := hFiles(dir)
				for n, v := range prev {
					if now[n] != v {
						fail("existing file %s was changed", n)
					}
				}
				if len(now) > len(prev)+1 {
					fail("more than one new file")
				}
				found := false
				for n, v := range now {
					i := strings.IndexByte(v, '\n')
					if i < 0 || v[i+1:] != meta && !(hashtype == "msg" && n == name && prev[n] != "") {
						if _, ok := prev[n]; !ok {
							fail("save file %s holds %q, expected %q", n, v, meta)
						}
						continue
					}
					if !strings.HasPrefix(v, fmt.Sprintf("id %d/%d %s ", os.Getpid(), cid, remote)) && prev[n] == "" {
						fail("save file has id line %q", v[:i])
					}
					w := name
					if hashtype == "all" {
						w = hSha(v)
					}
					if n == w {
						found = true
					} else if _, ok := prev[n]; !ok {
						fail("save file is called %s, expected %s", n, w)
					}
				}
				if !found {
					fail("message was not saved: %v", now)
				}
			}
			return evt
		}
		m.st.tls = tlson
		res := m.decide(ph, evt)
		props()
		expText = m.props["message"]
		expKind = map[Action]int{aAccept: smtpd.XAccept, aNoresult: smtpd.XAccept, aReject: smtpd.XReject, aStall: smtpd.XTempfail}[res]
		if expKind == smtpd.XAccept {
			switch ph {
			case pHelo:
				helo, from, rcpts = evt.Arg, "", nil
				stage = 1
				tlson = tlson || c.TLSOn
				if minphase == "helo" {
					reached = true
				}
			case pMfrom:
				if from != "" && !reached && counts {
					*yakN++
					if *yakN > yakCount {
						expKind, expText = smtpd.XTempfail, ""
						ended = true
						break
					}
				}
				from, rcpts = evt.Arg, nil
				stage = 2
				if minphase == "from" {
					reached = true
				}
			case pRto:
				rcpts = append(append([]string{}, rcpts...), evt.Arg)
				stage = 3
				if minphase == "to" {
					reached = true
				}
			case pData:
				stage = 4
				if minphase == "data" {
					reached = true
				}
			}
			m.rcpts = rcpts
		}
		return evt
	}
	*tracep += fmt.Sprintf(" | connection %d", cid)
	hCur.Store(*tracep)
	process(cid, nc, certs, &mlog, sw, dw, nil)
	if out != "" {
		return out
	}
	if len(nc.fails) > 0 {
		return strings.Join(nc.fails, "; ")
	}
	if !nc.closed {
		return "connection not closed"
	}
	if first != (connect == aReject) {
		return fmt.Sprintf("connection dropped at once: %v, expected %v", first, connect == aReject)
	}
	if !first && !ended {
		switch {
		case makeyak:
			*yakN = yakCount
		case counts && !reached:
			*yakN++
		case yakCount > 0 && reached:
			*yakN = 0
		}
	} else if !first && evt.What != smtpd.COMMAND {
		// ended by the client in the middle of a message
		switch {
		case makeyak:
			*yakN = yakCount
		case counts && !reached:
			*yakN++
		case yakCount > 0 && reached:
			*yakN = 0
		}
	}
	if rip == "" {
		*yakN, *tlsN = 0, 0
	}
	got := 0
	if e := yakkers.ips[rip]; e != nil && time.Since(e.when) < yakTimeout {
		got = e.count
	}
	if got != *yakN {
		return fmt.Sprintf("do-nothing count %d, expected %d", got, *yakN)
	}
	got = 0
	if e := notls.ips[rip]; e != nil && time.Since(e.when) < 72*time.Hour {
		got = e.count
	}
	if got != *tlsN {
		return fmt.Sprintf("TLS failure count %d, expected %d", got, *tlsN)
	}
	return ""
}

func hBrack(l []string) []string {
	var out []string
	for _, s := range l {
		out = append(out, " <"+s+">")
	}
	return out
}

func hIsDir(d string) bool {
	st, err := os.Stat(d)
	return err == nil && st.IsDir()
}

func hRuleDirs(l []*hRule) []string {
	var out []string
	for _, r := range l {
		for _, c := range r.clauses {
			if d := c.withs["savedir"]; d != "" {
				out = append(out, d)
			}
		}
	}
	return out
}

func hLocalName(local string) string {
	lip, _, _ := net.SplitHostPort(local)
	l, err := net.LookupAddr(lip)
	if err == nil && len(l) > 0 {
		return strings.TrimSuffix(l[0], ".")
	}
	return local
}

func TestC16(t *testing.T) { hLoop(t, 20, func() string { return hTalk("reply") }) }
func TestC17(t *testing.T) { hLoop(t, 20, func() string { return hTalk("envelope") }) }
func TestC19(t *testing.T) { hLoop(t, 20, func() string { return hTalk("tls") }) }

func TestC18(t *testing.T) {
	end := hEnd
	hEnd = hEnd.Add(-hBudget / 3)
	// the table
	hLoop(t, 100, func() string {
		m := &ipMap{ips: make(map[string]*ipEnt)}
		type ent struct {
			when time.Time
			n    int
		}
		model := map[string]*ent{}
		ips := []string{"192.0.2.1", "192.0.2.2", ""}
		log := ""
		for i := 0; i < 12; i++ {
			ip := hPick(ips)
			ttl := []time.Duration{time.Hour, 10 * time.Hour}[hInt(2)]
			e := model[ip]
			live := func() bool { return e != nil && time.Since(e.when) < ttl }
			switch hInt(5) {
			case 0, 1:
				log += fmt.Sprintf(" Add(%q,%v)", ip, ttl)
				hCur.Store(log)
				got := m.Add(ip, ttl)
				if ip == "" {
					if got != 0 {
						return log + fmt.Sprintf(" gave %d", got)
					}
					continue
				}
				if !live() {
					e = &ent{}
					model[ip] = e
				}
				e.n++
				e.when = time.Now()
				if got != e.n {
					return log + fmt.Sprintf(" gave %d, expected %d", got, e.n)
				}
			case 2:
				n := hInt(6)
				log += fmt.Sprintf(" Set(%q,%v,%d)", ip, ttl, n)
				hCur.Store(log)
				got := m.Set(ip, ttl, n)
				if ip == "" {
					if got != 0 {
						return log + fmt.Sprintf(" gave %d", got)
					}
					continue
				}
				old := 0
				if live() {
					old = e.n
				}
				if got != old {
					return log + fmt.Sprintf(" gave %d, expected %d", got, old)
				}
				model[ip] = &ent{time.Now(), n}
			case 3:
				log += fmt.Sprintf(" Del(%q)", ip)
				hCur.Store(log)
				m.Del(ip)
				delete(model, ip)
			case 4:
				// age an entry
				d := time.Duration(hInt(3)*5) * time.Hour
				if e != nil && m.ips[ip] != nil {
					e.when = e.when.Add(-d)
					m.ips[ip].when = m.ips[ip].when.Add(-d)
					log += fmt.Sprintf(" age(%q,%v)", ip, d)
				}
			}
			q := hPick(ips)
			e = model[q]
			log += fmt.Sprintf(" Lookup(%q,%v)", q, ttl)
			hCur.Store(log)
			ok, n := m.Lookup(q, ttl)
			want := 0
			if live() {
				want = e.n
			}
			if ok != live() || n != want {
				return log + fmt.Sprintf(" gave %v %d, expected %v %d", ok, n, live(), want)
			}
			if e != nil && !live() {
				delete(model, q)
				if m.ips[q] != nil {
					return log + " kept an expired entry"
				}
			}
		}
		if len(m.ips) != len(model) {
			return log + fmt.Sprintf(": %d entries, expected %d", len(m.ips), len(model))
		}
		return ""
	})
	// the lock: concurrent additions are all counted
	for k := 0; k < 5; k++ {
		m := &ipMap{ips: make(map[string]*ipEnt)}
		done := make(chan bool)
		for g := 0; g < 8; g++ {
			go func() {
				for i := 0; i < 500; i++ {
					m.Add("192.0.2.1", time.Hour)
					m.Lookup("192.0.2.1", time.Hour)
				}
				done <- true
			}()
		}
		for g := 0; g < 8; g++ {
			<-done
		}
		if ok, n := m.Lookup("192.0.2.1", time.Hour); !ok || n != 4000 {
			hFound(fmt.Sprintf("8 goroutines adding 500 times each gave a count of %d", n))
			t.FailNow()
		}
	}
	hEnd = end
	hLoop(t, 20, func() string { return hTalk("yak") })
}

// ---- C23

type hConnEnt struct {
	local, name string
	certs       []tls.Certificate
}

func hLocalMatch(pat, local string) bool {
	if pat == "*" || pat == local {
		return true
	}
	lip, _, _ := net.SplitHostPort(local)
	ip := net.ParseIP(lip)
	if ip == nil {
		return false
	}
	if q := net.ParseIP(pat); q != nil && q.Equal(ip) {
		return true
	}
	_, n, err := net.ParseCIDR(pat)
	return err == nil && n.Contains(ip)
}

// hConnText makes a connection parameter file and what it stands for.
func hConnText(local string) (string, []hConnEnt, bool) {
	hMakeCerts()
	var b strings.Builder
	var out []hConnEnt
	bad := false
	lip, _, _ := net.SplitHostPort(local)
	if lip == "" {
		lip = "junk"
	}
	for n := 1 + hInt(4); n > 0; n-- {
		switch hInt(8) {
		case 0:
			b.WriteString("# comment *\n")
			continue
		case 1:
			b.WriteString(" \t\n")
			continue
		}
		e := hConnEnt{local: hPick([]string{"*", local, lip, "192.0.2.0/24", "10.0.0.0/8", "0.0.0.0/0", "::/0", "192.0.2.1:26", "junk", "192.0.2.2", "2001:db8::/64", "10.0.0.2/31", "1.2.3.4/99"})}
		if hOne(3) {
			e.local = lip
		}
		fs := []string{}
		if hOne(2) {
			e.name = hPick([]string{"one.name", "two.name", "x=y"})
			fs = append(fs, "hostname="+e.name)
		}
		if hOne(2) {
			i := hInt(2)
			e.certs = hLoadCert(i)
			fs = append(fs, "cert="+hCerts[2*i], "key="+hCerts[2*i+1])
			if hOne(4) {
				e.certs = append(hLoadCert(i), hLoadCert(1-i)...)
				fs[len(fs)-2] += "," + hCerts[2*(1-i)]
				fs[len(fs)-1] += "," + hCerts[2*(1-i)+1]
			}
		}
		if hOne(3) {
			fs = append([]string{}, fs...)
			hRnd.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		}
		if hOne(12) {
			bad = true
			switch hInt(8) {
			case 0:
				fs = []string{"cert=" + hCerts[0]}
			case 1:
				fs = []string{"key=" + hCerts[1], "hostname=a"}
			case 2:
				fs = append(fs, "hostnme=x")
			case 3:
				fs = append([]string{"noequals"}, fs...)
			case 4:
				fs = []string{"hostname=a", "hostname=b", "hostname=c", "hostname=d"}
			case 5:
				fs = []string{"cert=" + hCerts[0], "key=" + hCerts[3]}
			case 6:
				fs = []string{"cert=/nonexistent", "key=/nonexistent"}
			case 7:
				fs = []string{"cert=" + hCerts[0] + "," + hCerts[2], "key=" + hCerts[1]}
			}
		}
		b.WriteString(hPick([]string{"", " ", "\t"}) + e.local)
		for _, x := range fs {
			b.WriteString(hPick([]string{" ", "\t", "   "}) + x)
		}
		b.WriteString(hPick([]string{"\n", " \n", "\r\n"}))
		out = append(out, e)
	}
	s := b.String()
	if hOne(3) {
		s = strings.TrimRight(s, "\r\n")
	}
	return s, out, bad
}

func TestC23(t *testing.T) {
	end := hEnd
	hEnd = hEnd.Add(-hBudget / 2)
	hLoop(t, 50, func() string {
		local := hPick([]string{"192.0.2.1:25", "10.0.0.1:2525", "[2001:db8::9]:25", "10.0.0.3:25", "strange"})
		text, ents, bad := hConnText(local)
		hCase("connection file %q local %s", text, local)
		dm, err := loadConnFile(hFile(text))
		if (err != nil) != bad {
			return fmt.Sprintf("connection file %q: error %v, expected error: %v", text, err, bad)
		}
		if err != nil {
			if dm.find(&hConn{local: local}) != nil {
				return fmt.Sprintf("bad connection file %q: an entry is used", text)
			}
			return ""
		}
		hNontriv++
		if dm == nil || len(*dm) != len(ents) {
			return fmt.Sprintf("connection file %q: %v, expected %v", text, dm, ents)
		}
		wi := -1
		for i, e := range ents {
			d := (*dm)[i]
			if d.local != e.local || d.myname != e.name || !hSameCerts(d.certs, e.certs) {
				return fmt.Sprintf("connection file %q: entry %d is %q %q with %d certificates, expected %q %q %d", text, i, d.local, d.myname, len(d.certs), e.local, e.name, len(e.certs))
			}
			if wi < 0 && hLocalMatch(e.local, local) {
				wi = i
			}
		}
		got := dm.find(&hConn{local: local})
		if wi < 0 && got != nil || wi >= 0 && got != (*dm)[wi] {
			return fmt.Sprintf("connection file %q local %s: %v, expected entry %d", text, local, got, wi)
		}
		return ""
	})
	hEnd = end
	hLoop(t, 20, func() string { return hTalk("conn") })
}

func hSameCerts(a, b []tls.Certificate) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if string(a[i].Certificate[0]) != string(b[i].Certificate[0]) {
			return false
		}
	}
	return true
}

// ---- C10, C25

func hRuleFile(depth int) (string, []*hRule, bool) {
	f := &hFocus{ops: hAllOps, structs: 1, phases: true, withs: 2}
	if depth == 0 && hOne(12) {
		return hDir + "/nofile", nil, true
	}
	text := ""
	for n := hInt(4); n > 0; n-- {
		if depth < 2 && hOne(4) {
			fn, _, _ := hRuleFile(depth + 1)
			text += "include " + fn + "\n"
			if hOne(30) {
				text += "include " + hDir + "/nosuch\n"
			}
			continue
		}
		r := f.rule()
		if _, err := specParse(r, 0); err != nil && !hOne(10) {
			continue
		}
		text += r
	}
	if hOne(15) {
		text += hPick([]string{"reject", "reject all with", "\"", "reject from", "include", "@to", "junk"})
	}
	l, err := specParse(text, depth)
	return hFile(text), l, err != nil
}

func TestC10(t *testing.T) {
	hLoop(t, 50, func() string {
		if hFileN > 400 {
			hClean()
		}
		basetext := hPick([]string{"", "reject helo-has none\n", "reject from a@b\nstall to c@d\n", "accept all\naccept all\naccept all\n"})
		base, err := Parse(basetext)
		if err != nil {
			return "base rules do not parse"
		}
		basewant, _ := specParse(basetext, 0)
		// room for more, so that appending in place would show
		roomy := make([]*Rule, len(base), len(base)+8)
		copy(roomy, base)
		var results [2][]*Rule
		var wants [2][]*hRule
		desc := ""
		for k := 0; k < 2; k++ {
			rulefiles = nil
			want := append([]*hRule{}, basewant...)
			bad := false
			for n := hInt(4); n > 0; n-- {
				fn, l, b := hRuleFile(0)
				rulefiles = append(rulefiles, fn)
				want = append(want, l...)
				bad = bad || b
			}
			for _, fn := range rulefiles {
				b, _ := os.ReadFile(fn)
				desc += fmt.Sprintf(" file %q", b)
			}
			hCur.Store(desc)
			w0 := hWarnCount()
			rules, good := setupRules(roomy)
			if good == bad {
				return fmt.Sprintf("rule files%s: good %v, expected %v", desc, good, !bad)
			}
			if bad {
				time.Sleep(time.Millisecond)
				for i := 0; i < 1000 && hWarnCount() == w0; i++ {
					time.Sleep(time.Millisecond)
				}
				if hWarnCount() == w0 {
					return fmt.Sprintf("rule files%s: bad rules are not reported", desc)
				}
				want, _ = specParse("stall all", 0)
			}
			results[k], wants[k] = rules, want
			hNontriv++
			if s := hRuleCompare(rules, want); s != "" {
				return fmt.Sprintf("rule files%s: %s", desc, s)
			}
			for i := range base {
				if good && rules[i] != base[i] {
					return fmt.Sprintf("rule files%s: built-in rule %d is not first", desc, i)
				}
			}
		}
		// the first connection's rules are still what they were
		if s := hRuleCompare(results[0], wants[0]); s != "" {
			return fmt.Sprintf("rule files%s: rules of the first connection changed: %s", desc, s)
		}
		for i := range base {
			if roomy[i] != base[i] {
				return "built-in rules were changed"
			}
		}
		for i := range roomy[:cap(roomy)][len(base):] {
			if roomy[:cap(roomy)][len(base)+i] != nil {
				return fmt.Sprintf("rule files%s: the array of the built-in rules was written to", desc)
			}
		}
		return hSessionWith(results[0], wants[0], desc, 6)
	})
}

func TestC25(t *testing.T) {
	hLoop(t, 50, func() string {
		if hFileN > 300 {
			hClean()
		}
		std := hOne(2)
		failgotdata = hOne(2)
		fromreject, toaccept, heloreject = "", "", ""
		want := ""
		if std {
			want = "reject from-has bad,route\nreject to-has bad,route\nreject helo-has none\n"
		}
		if failgotdata {
			want += "@message reject all\n"
		}
		if hOne(2) {
			fromreject = hList(hAddrPat)
			want += "reject from file:" + fromreject + "\n"
		}
		if hOne(2) {
			toaccept = hList(hAddrPat)
			want += "reject not to file:" + toaccept + "\n"
		}
		if hOne(2) {
			heloreject = hList(hHostPat)
			want += "@from reject helo file:" + heloreject + "\n"
		}
		hCase("options stdrules %v -M %v -fromreject %q -toaccept %q -heloreject %q", std, failgotdata, fromreject, toaccept, heloreject)
		rules := buildRules(std)
		wl, err := specParse(want, 0)
		if err != nil {
			return "bad test: " + want
		}
		hNontriv++
		if s := hRuleCompare(rules, wl); s != "" {
			return fmt.Sprintf("options giving %q: %s", want, s)
		}
		// they come before the rules of files
		rulefiles = []string{hFile("accept all with message last\n")}
		all, good := setupRules(rules)
		rulefiles = nil
		l2, _ := specParse(want+"accept all with message last\n", 0)
		if !good {
			return "rules do not load"
		}
		if s := hRuleCompare(all, l2); s != "" {
			return fmt.Sprintf("options giving %q and a rule file: %s", want, s)
		}
		return hSessionWith(all, l2, want, 8)
	})
}

// ---- C20, C21, C24

func specRDNS(ip string) *rDNSResults {
	r := &rDNSResults{}
	if ip == "" {
		return r
	}
	names, err := net.LookupAddr(ip)
	if err != nil {
		return r
	}
	names = append([]string{}, names...)
	for i := range names {
		for j := i + 1; j < len(names); j++ {
			if names[j] < names[i] {
				names[i], names[j] = names[j], names[i]
			}
		}
	}
	me := net.ParseIP(ip)
	for _, n := range names {
		l, err := net.LookupIP(n)
		ok := false
		for _, a := range l {
			ok = ok || a.Equal(me)
		}
		switch {
		case err != nil:
			r.nofwd = append(r.nofwd, n)
		case ok:
			r.verified = append(r.verified, n)
		default:
			r.inconsist = append(r.inconsist, n)
		}
	}
	return r
}

func TestC20(t *testing.T) {
	hLoop(t, 50, func() string {
		hSalt = int64(hInt(100000))
		ip := hPick([]string{"192.0.2.7", "198.51.100.3", "203.0.113.9", "2001:db8::1", "8.8.8.8", "", "junk", "192.0.2.1", "2001:db8:0:0:0:0:0:1"})
		hCase("client %q salt %d", ip, hSalt)
		got, _ := LookupAddrVerified(ip)
		want := specRDNS(ip)
		if got == nil {
			return fmt.Sprintf("client %q salt %d: nil", ip, hSalt)
		}
		if len(want.verified)+len(want.nofwd)+len(want.inconsist) > 0 {
			hNontriv++
		}
		if fmt.Sprint(*got) != fmt.Sprint(*want) {
			return fmt.Sprintf("client %q salt %d: %v, expected %v", ip, hSalt, *got, *want)
		}
		return ""
	})
}

func TestC21(t *testing.T) {
	hLoop(t, 50, func() string {
		hSalt = int64(hInt(100000))
		d := hPick([]string{"example.com", "b.org", "h1.net", "a.b.c", "x.", "mx1.h2.net", "", "localhost.net"})
		hCase("domain %q salt %d", d, hSalt)
		got, _ := ValidDomain(d)
		want := specValidDomain(d)
		hNontriv++
		if got != want {
			mx, e := net.LookupMX(d + ".")
			desc := fmt.Sprint(e)
			for _, x := range mx {
				l, e := net.LookupIP(x.Host)
				desc += fmt.Sprintf(" [%s %v %v]", x.Host, l, e)
			}
			return fmt.Sprintf("domain %q (salt %d) with %s: %v, expected %v", d, hSalt, desc, got, want)
		}
		return ""
	})
}

type hBadReader struct {
	s string
	n int
}

func (r *hBadReader) Read(b []byte) (int, error) {
	if r.s == "" {
		return 0, fmt.Errorf("read error")
	}
	n := copy(b, r.s)
	r.s = r.s[n:]
	return n, nil
}

func TestC24(t *testing.T) {
	end := hEnd
	hEnd = hEnd.Add(-hBudget / 2)
	hLoop(t, 100, func() string {
		if hFileN > 300 {
			hClean()
		}
		s := ""
		for n := hInt(6); n > 0; n-- {
			s += hPick([]string{"a@b", "@X.ORG", "# c", "#", " # d", "", " ", "\t", "b c", " lead", "trail \t", "é@Ü", "x#y", strings.Repeat("long", 1100), "\r"})
			s += hPick([]string{"\n", "\n", "\r\n", "\n\n", ""})
		}
		fn := hFile(s)
		c := newContext(&smtpTransaction{rdns: &rDNSResults{}}, nil)
		arg := hPick([]string{"", "file:"}) + fn
		hCase("list file %q", s)
		got := c.getMatchList(arg)
		want := specLines(s)
		if !eqStrs(got, want) {
			return fmt.Sprintf("list file %q gives %q, expected %q", s, got, want)
		}
		hNontriv++
		// one version for the connection
		os.WriteFile(fn, []byte("other@"), 0600)
		if got := c.getMatchList(hPick([]string{"", "file:"}) + fn); !eqStrs(got, want) {
			return fmt.Sprintf("list file %q changed during the connection: %q", s, got)
		}
		if hOne(4) {
			os.Remove(fn)
			if got := c.getMatchList(fn); !eqStrs(got, want) {
				return fmt.Sprintf("list file %q removed during the connection: %q", s, got)
			}
		}
		for _, f := range []string{hDir + "/none", hDir} {
			if got := c.getMatchList(f); len(got) != 0 {
				return fmt.Sprintf("unreadable list file gives %q", got)
			}
		}
		os.WriteFile(hDir+"/none", []byte("late@\n"), 0600)
		got = c.getMatchList(hDir + "/none")
		os.Remove(hDir + "/none")
		if len(got) != 0 {
			return fmt.Sprintf("a missing list file that appears during the connection gives %q", got)
		}
		return ""
	})
	hEnd = end
	hRulesTest(t, &hFocus{ops: strings.Fields("from to helo host ip"), files: 1, structs: 1})
}

func TestC26(t *testing.T) {
	f := &hFocus{ops: hAllOps, files: 6, structs: 2, phases: true, withs: 2}
	n := 0
	hLoop(t, 60, func() string {
		n++
		if hFileN > 300 {
			hClean()
		}
		switch n % 6 {
		case 0:
			return hOnlyPanic(func() string { return hTalk("any") })
		case 1:
			return hOnlyPanic(func() string { return hSession(f.rules(), 10) })
		case 2:
			return hOnlyPanic(func() string { return hHandle(true) })
		case 3:
			s := hChars("a@.(),;\"\\\n #/:", 25)
			return hOnlyPanic(func() string { return hParseOnly(hPick([]string{"", "reject ", "reject from "}) + s) })
		case 4:
			return hOnlyPanic(func() string {
				a, p := hChars("a.@", 6), hChars("a.@", 5)
				hCur.Store(fmt.Sprintf("match %q %q", a, p))
				matchAddress(a, p)
				matchHost(a, p)
				matchIp(a, p)
				hSalt = int64(hInt(1000))
				c := newContext(&smtpTransaction{rdns: &rDNSResults{}, rip: hPick(hIPs), lip: hPick(hIPs)}, nil)
				getAddrOpts(a, c)
				c.heloname = hHost()
				hCur.Store(fmt.Sprintf("helo %q", c.heloname))
				heloGetter(c)
				return ""
			})
		default:
			// a blocklist hit and its logging
			return hOnlyPanic(func() string {
				hSalt = int64(hInt(1000))
				hZone = map[string]hAns{}
				rip := hPick(hIPs)
				tr := &smtpTransaction{rdns: &rDNSResults{verified: hNames(2)}, rip: rip, raddr: hAddrT("x"), laddr: hAddrT("y")}
				if hOne(2) {
					tr.log = &smtpLogger{writer: hBuf()}
				}
				hZone["TXT "+"7.2.0.192.sbl.spamhaus.org."] = hAns{names: []string{hPick([]string{"", "/", "a/SBL1", "b/", "nothing"}), "http://x/SBL2"}}
				hZone["A "+"7.2.0.192.sbl.spamhaus.org."] = hAns{ips: []string{"127.0.0.2"}}
				for _, h := range hHosts {
					hZone["A "+h+".sbl.spamhaus.org."] = hAns{ips: []string{"127.0.0.2"}}
				}
				rules, _ := Parse("set-with dnsbl sbl.spamhaus.org or dbl any sbl.spamhaus.org with note n\nset-with from-has resolves or from-has baddom or from-has unknown with note \"x %s\"\n" + hPick([]string{"", "@connect reject all\n", "stall all\n", "reject all\n", "accept all\n"}))
				c := newContext(tr, rules)
				hCase("blocklist hit for client %q rdns %v logging %v", rip, tr.rdns.verified, tr.log != nil)
				convo := smtpd.NewConn(nil, smtpd.Config{}, nil)
				for _, ph := range []Phase{pConnect, pHelo, pMfrom, pRto, pData, pMessage} {
					cmd := map[Phase]smtpd.Command{pHelo: smtpd.EHLO, pMfrom: smtpd.MAILFROM, pRto: smtpd.RCPTTO, pData: smtpd.DATA}[ph]
					decider(ph, smtpd.EventInfo{What: smtpd.COMMAND, Cmd: cmd, Arg: hAddr()}, c, convo, hPick([]string{"", "id"}), tr)
				}
				hZone = map[string]hAns{}
				return ""
			})
		}
	})
}

func hOnlyPanic(f func() string) string {
	s := hTry(f)
	if strings.HasPrefix(s, "run-time panic") {
		return s
	}
	hNontriv++
	return ""
}
