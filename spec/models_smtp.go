package main

// Conversations: the specification state that the verifier keeps while process() runs.

import (
	"strings"
	"net"
	"time"
	"bufio"
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"io"

	"github.com/siebenmann/smtpd"
)

func anyEvent() smtpd.EventInfo
func anyBool() bool
func anyTLS() tls.ConnectionState

//@ model smtpd.xcheck
func modelXcheck(c *smtpd.Conn, ok bool, what string) { require(ok, what) }

//@ model smtpd.xsent
func modelXsent(c *smtpd.Conn, kind int, text string) {}

//@ model smtpd.xpeer
func modelXpeer(conn interface{}) smtpd.XPeer { return nil }

// ---- replies

func kindOf(a Action) int {
	if a == aReject {
		return smtpd.XReject
	}
	if a == aStall {
		return smtpd.XTempfail
	}
	return smtpd.XAccept
}

// refuseText: what a refusal says.
func refuseText(a Action, ph Phase, msg string, id string, rcpts int) string {
	if a == aStall {
		return msg
	}
	if msg != "" {
		if id != "" {
			return msg + "\nRejected with ID " + id
		}
		return msg
	}
	what := "that address"
	if ph == pMessage || ph == pData {
		if rcpts > 1 {
			what = "those addresses"
		}
		if id != "" && ph == pMessage {
			return "We do not consent to you emailing " + what + "\nRejected with ID " + id
		}
		return "We do not consent to you emailing " + what
	}
	if ph == pRto {
		return "We do not consent to you emailing that address"
	}
	return ""
}

// acceptText: what a success says.
func acceptText(msg string, id string) string {
	if msg != "" {
		if id != "" {
			return msg + "\nAccepted with ID " + id
		}
		return msg
	}
	if id != "" {
		return "I've put it in a can called " + id
	}
	return ""
}

// pre_action: what the rules, and a deferred refusal of a null sender, decide.
func pre_action(ph Phase, evt smtpd.EventInfo, c *Context) Action {
	if pre_deferred(ph, c) {
		return c.defresult
	}
	d := pre_decide(c.ruleset, 0, ph, evt, c)
	if ph == pMfrom && evt.Arg == "" && d > aAccept {
		return aAccept
	}
	return d
}

// pre_opt: the option the decision comes with.
func pre_opt(ph Phase, evt smtpd.EventInfo, c *Context, k string) string {
	if pre_deferred(ph, c) {
		return c.defprops[k]
	}
	if ph == pMfrom && evt.Arg == "" && pre_decide(c.ruleset, 0, ph, evt, c) > aAccept {
		return ""
	}
	return pre_prop(c.ruleset, 0, ph, evt, c, k, "")
}

func pre_optHas(ph Phase, evt smtpd.EventInfo, c *Context, k string) bool {
	if pre_deferred(ph, c) {
		return hasKey(c.defprops, k)
	}
	if ph == pMfrom && evt.Arg == "" && pre_decide(c.ruleset, 0, ph, evt, c) > aAccept {
		return false
	}
	return pre_has(c.ruleset, 0, ph, evt, c, k, false)
}

func orStr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func logOK(l *smtpLogger) bool {
	return l == nil || l.writer != nil && !isBuffer(cast_ghWriter(l.writer).target)
}

// isPlain: the writer is neither a buffer nor a buffered writer of this program.
func isPlain(w io.Writer) bool {
	_, ok := w.(*bufio.Writer)
	return !ok && !isBuffer(w)
}

func isBuffer(w io.Writer) bool {
	_, ok := w.(*bytes.Buffer)
	_, ok2 := w.(*strings.Builder)
	return ok || ok2
}

func held_dnsblCounts_Mutex(d *dnsblCounts) bool

func countsOK(d *dnsblCounts) bool { return d != nil && d.dbls != nil && !held_dnsblCounts_Mutex(d) }

func tcAuth(c *tls.Config) tls.ClientAuthType {
	if c == nil {
		return 0
	}
	return c.ClientAuth
}

func tlsAfter(opt string, c *tls.Config) *tls.Config {
	if opt == "off" {
		return nil
	}
	return c
}

func authAfter(opt string, a tls.ClientAuthType) tls.ClientAuthType {
	if opt == "no-client" {
		return tls.NoClientCert
	}
	return a
}

// ---- the state of a session

var ghConvo *smtpd.Conn
var ghDec bool    // the rules were asked about the current event
var ghAct Action  // what they decided
var ghMsg string  // and the message option
var ghMy bool     // some decision of this session came with make-yakker
var ghSD string   // the save directory in force
var ghTLSCfg *tls.Config
var ghHandled bool // the current message was logged and saved
var ghErr bool     // with an error
var ghID string    // its id
var ghGot bool     // the events before the current one reached the minimum phase
var ghTLSErr bool  // one of them was a TLS error
var ghYAdd, ghYSet, ghYDel, ghNAdd int // operations on the tables of addresses
var ghYAdd0, ghNAdd0 int               // and how many there were before the current event

func anyTime() time.Time

var ghDM *destMap    // the connection parameters that were loaded
var ghDest *perDest  // the entry found for this connection

func specTLSName(c *x509.Certificate) string {
	if c.Subject.CommonName != "" {
		return c.Subject.CommonName
	}
	if len(c.DNSNames) > 0 {
		return c.DNSNames[0]
	}
	return "<no CN or DNS Names>"
}

func tlsStateOK(s tls.ConnectionState) bool {
	return (len(s.VerifiedChains) == 0 || len(s.VerifiedChains[0]) > 0 && s.VerifiedChains[0][0] != nil) &&
		(len(s.PeerCertificates) == 0 || s.PeerCertificates[0] != nil)
}

//@ model smtpd.xnew
func modelXnew(c *smtpd.Conn) {
	ghConvo = c
	ghDec = false
	ghMy = false
	ghSD = savedir
	ghTLSCfg = c.Config.TLSConfig
	ghHandled = false
	ghErr = false
	ghID = ""
	ghGot = false
	ghTLSErr = false
}

// reached: the event got the session to the minimum phase.
func reached(c *smtpd.Conn) bool {
	e := c.XEvt
	ok := c.XCount == 1 && c.XKind == smtpd.XAccept
	if e.What == smtpd.COMMAND {
		switch e.Cmd {
		case smtpd.HELO, smtpd.EHLO:
			return minphase == "helo" && c.XCount == 0
		case smtpd.MAILFROM:
			return minphase == "from" && ok
		case smtpd.RCPTTO:
			return minphase == "to" && ok
		case smtpd.DATA:
			return minphase == "data" && ok
		}
	}
	return e.What == smtpd.GOTDATA && (minphase == "message" || minphase == "accepted" && ok || ghErr)
}

//@ model smtpd.xend
func modelXend(c *smtpd.Conn) {
	ghGot = ghGot || reached(c)
	ghTLSErr = ghTLSErr || c.XEvt.What == smtpd.TLSERROR
	ghYAdd0, ghNAdd0 = ghYAdd, ghNAdd
	ghDec = false
	ghHandled = false
	ghErr = false
	ghOutState = 0
	ghNow = anyTime()
	c.TLSOn = anyBool()
	c.TLSState = anyTLS()
	assume(tlsStateOK(c.TLSState))
}

//@ model smtpd.xevent
func modelXevent(c *smtpd.Conn) smtpd.EventInfo {
	e := anyEvent()
	assume(e.What >= smtpd.COMMAND && e.What <= smtpd.TLSERROR)
	return e
}

// phaseOf: the phase of the rules in which an event is judged.
func phaseOf(e smtpd.EventInfo) Phase {
	if e.What == smtpd.GOTDATA {
		return pMessage
	}
	if e.What == smtpd.COMMAND {
		switch e.Cmd {
		case smtpd.HELO, smtpd.EHLO:
			return pHelo
		case smtpd.MAILFROM:
			return pMfrom
		case smtpd.RCPTTO:
			return pRto
		case smtpd.DATA:
			return pData
		}
	}
	return pAny
}

// done16: the current event got the outcome the rules decided.
func done16(c *smtpd.Conn) bool {
	e := c.XEvt
	if phaseOf(e) == pAny {
		return c.XCount == 0
	}
	if e.What == smtpd.GOTDATA && ghErr {
		return c.XCount == 1 && c.XKind == smtpd.XTempfail
	}
	if !ghDec {
		return false
	}
	id := ""
	if e.What == smtpd.GOTDATA {
		id = ghID
	}
	if smtpd.XGreets(e) && ghAct <= aAccept {
		return c.XCount == 0
	}
	if ghAct <= aAccept {
		return c.XCount == 1 && c.XKind == smtpd.XAccept && c.XText == acceptText(ghMsg, id)
	}
	return c.XCount == 1 && c.XKind == kindOf(ghAct) && c.XText == refuseText(ghAct, phaseOf(e), ghMsg, id, len(c.XRcpts))
}

// done14: a message was logged and saved, and was accepted only if that worked.
func done14(c *smtpd.Conn) bool {
	return c.XEvt.What != smtpd.GOTDATA || ghHandled && (!ghErr || c.XKind == smtpd.XTempfail)
}

// done19: every TLS error is recorded once.
func done19(c *smtpd.Conn) bool {
	if c.XEvt.What == smtpd.TLSERROR {
		return ghNAdd == ghNAdd0+1
	}
	return c.XEvt.What == 0 || ghNAdd == ghNAdd0
}

// pendHelo: the accepted greeting, including the current event.
func pendHelo(c *smtpd.Conn) string {
	if smtpd.XGreets(c.XEvt) && c.XCount == 0 {
		return c.XEvt.Arg
	}
	return c.XHelo
}

func pendFrom(c *smtpd.Conn) string {
	if smtpd.XGreets(c.XEvt) && c.XCount == 0 {
		return ""
	}
	return c.XFrom
}

func pendRcpts(c *smtpd.Conn) []string {
	if smtpd.XGreets(c.XEvt) && c.XCount == 0 {
		return []string{}
	}
	return c.XRcpts
}

// sameEnvelope: the recorded envelope is the accepted one.
func sameEnvelope(t *smtpTransaction, c *smtpd.Conn) bool {
	return t.heloname == c.XHelo && t.from == c.XFrom && eqStrs(t.rcptto, c.XRcpts)
}

func ripOf(nc net.Conn) string {
	h, _, _ := net.SplitHostPort(nc.RemoteAddr().String())
	return h
}

// isYakker: the client's sessions are stalled.
func isYakker(rip string) bool {
	return yakCount > 0 && isLive(yakkers, rip, yakTimeout) && liveCount(yakkers, rip, yakTimeout) >= yakCount
}

// rulesFor: the rules of a session.
func rulesFor(stalled bool, base []*Rule) []*Rule {
	if stalled || !filesOK(rulefiles, 0) {
		return stallall
	}
	return append(base, filesRules(rulefiles, 0)...)
}

func mapsOK(i *ipMap) bool { return i != nil && i.ips != nil && !held_ipMap_Mutex(i) }

func sameIps(a, b map[string]*ipEnt) bool

func oneIf(b bool) int {
	if b {
		return 1
	}
	return 0
}

// effCerts: the certificates that apply to the connection.
func effCerts(certs []tls.Certificate) []tls.Certificate {
	if connfile != "" && ghDest != nil {
		return ghDest.certs
	}
	return certs
}

func destName() string {
	if connfile != "" && ghDest != nil {
		return ghDest.myname
	}
	return ""
}

// rdnsIs: the names are the classified ones of the address.
func rdnsIs(r *rDNSResults, ip string) bool {
	n := specNames(ip)
	return eqStrs(r.verified, ofClass(n, len(n), net.ParseIP(ip), 0)) && eqStrs(r.nofwd, ofClass(n, len(n), net.ParseIP(ip), 1)) &&
		eqStrs(r.inconsist, ofClass(n, len(n), net.ParseIP(ip), 2))
}

// ended: the client or the connection ended the session.
func ended(c *smtpd.Conn) bool { return c.XEvt.What == smtpd.DONE || c.XEvt.What == smtpd.ABORT }
