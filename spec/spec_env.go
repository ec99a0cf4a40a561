package main

// Specification functions that also talk about the environment (files, DNS, time): for the verifier only.

import (
	"crypto/tls"
	"io"
	"net"
	"strings"
	"time"
)

// ---- C20: reverse DNS

func anyIP(l []net.IP, i int, ip net.IP) bool {
	if i < 0 || i >= len(l) {
		return false
	}
	return l[i].Equal(ip) || anyIP(l, i+1, ip)
}

// nameClass: 0 verified, 1 no forward, 2 inconsistent.
func nameClass(name string, ip net.IP) int {
	l, err := envLookupIP(name)
	if err != nil {
		return 1
	}
	if anyIP(l, 0, ip) {
		return 0
	}
	return 2
}

// ofClass: those of the first n names that are of the class, in order.
func ofClass(names []string, n int, ip net.IP, class int) []string {
	if n <= 0 || n > len(names) {
		return nil
	}
	prev := ofClass(names, n-1, ip, class)
	if nameClass(names[n-1], ip) == class {
		return append(prev, names[n-1])
	}
	return prev
}

func specNames(ip string) []string {
	if ip == "" {
		return nil
	}
	l, err := envLookupAddr(ip)
	if err != nil {
		return nil
	}
	return uSorted(l)
}

// ---- C23: connection parameters

func destOK(l []*perDest, i int) bool {
	if i < 0 || i >= len(l) {
		return true
	}
	return l[i] != nil && destOK(l, i+1)
}

func destMatches(local string, addr string) bool {
	if local == "*" || local == addr {
		return true
	}
	host, _, _ := net.SplitHostPort(addr)
	ip := net.ParseIP(host)
	if ip == nil {
		return false
	}
	if ip.Equal(net.ParseIP(local)) {
		return true
	}
	_, n, err := net.ParseCIDR(local)
	return err == nil && n.Contains(ip)
}

// destFirst: the first entry from i on that applies to the local address.
func destFirst(l []*perDest, i int, addr string) *perDest {
	if i < 0 || i >= len(l) {
		return nil
	}
	if destMatches(l[i].local, addr) {
		return l[i]
	}
	return destFirst(l, i+1, addr)
}

func lemDestSnoc(l []*perDest, i int) {
	if i >= 0 && i < len(l) {
		lemDestSnoc(l, i+1)
	}
}

// connBlank: the line says nothing.
func connBlank(s string) bool {
	l := strings.TrimSpace(s[:lineLen(s)])
	return l == "" || l[0] == 0x23
}

func connFields(s string) []string { return strings.Fields(strings.TrimSpace(s[:lineLen(s)])) }

// connVal: the value of the last key=... of the fields from i on, or what it was.
func connVal(f []string, i int, key string, old string) string {
	if i < 1 || i >= len(f) {
		return old
	}
	v := old
	if kv := strings.SplitN(f[i], "=", 2); len(kv) == 2 && kv[0] == key {
		v = kv[1]
	}
	return connVal(f, i+1, key, v)
}

func connKeysOK(f []string, i int) bool {
	if i < 1 || i >= len(f) {
		return true
	}
	kv := strings.SplitN(f[i], "=", 2)
	return len(kv) == 2 && (kv[0] == "hostname" || kv[0] == "cert" || kv[0] == "key") && connKeysOK(f, i+1)
}

func connLineOK(f []string) bool {
	c, k := connVal(f, 1, "cert", ""), connVal(f, 1, "key", "")
	return len(f) <= 4 && connKeysOK(f, 1) && (c == "") == (k == "") && (c == "" || certsOK(c, k))
}

// connOK: no line of the text is malformed.
func connOK(s string) bool {
	if s == "" {
		return true
	}
	return (connBlank(s) || connLineOK(connFields(s))) && connOK(s[lineLen(s):])
}

// connCount: how many entries the text has.
func connCount(s string) int {
	if s == "" {
		return 0
	}
	if connBlank(s) {
		return connCount(s[lineLen(s):])
	}
	return 1 + connCount(s[lineLen(s):])
}

// connNth: the text from the line of entry n on.
func connNth(s string, n int) string {
	if s == "" {
		return ""
	}
	if connBlank(s) {
		return connNth(s[lineLen(s):], n)
	}
	if n <= 0 {
		return s
	}
	return connNth(s[lineLen(s):], n-1)
}

// destIs: the entry is what the line says.
func destIs(d *perDest, f []string) bool {
	return len(f) > 0 && d.local == f[0] && d.myname == connVal(f, 1, "hostname", "") && eqCerts(d.certs, connCerts(f))
}

func connCerts(f []string) []tls.Certificate {
	c, k := connVal(f, 1, "cert", ""), connVal(f, 1, "key", "")
	if c == "" {
		return nil
	}
	return certsFrom(strings.Split(c, ","), strings.Split(k, ","), 0)
}

func eqCerts(a, b []tls.Certificate) bool

// certsFrom: the certificates of the listed files.
func certsFrom(cl, kl []string, i int) []tls.Certificate {
	if i < 0 || i >= len(cl) {
		return nil
	}
	c, _ := tls.LoadX509KeyPair(cl[i], kl[i])
	return append([]tls.Certificate{c}, certsFrom(cl, kl, i+1)...)
}

func certsBad(cl, kl []string, i int) bool {
	if i < 0 || i >= len(cl) {
		return false
	}
	_, err := tls.LoadX509KeyPair(cl[i], kl[i])
	return err != nil || certsBad(cl, kl, i+1)
}

func certsOK(certs, keys string) bool {
	cl, kl := strings.Split(certs, ","), strings.Split(keys, ",")
	return len(cl) == len(kl) && !certsBad(cl, kl, 0)
}

// ---- C24: pattern files

func lineLen(s string) int {
	if i := strings.IndexByte(s, 0x0a); i >= 0 {
		return i + 1
	}
	return len(s)
}

// listFrom: the patterns in the text of a pattern file.
func listFrom(s string) []string {
	if s == "" {
		return nil
	}
	rest := listFrom(s[lineLen(s):])
	line := strings.TrimSpace(s[:lineLen(s)])
	if line == "" || line[0] == 0x23 {
		return rest
	}
	return append([]string{strings.ToLower(line)}, rest...)
}

// ---- C10: loading rule files

func fileOK(fname string) bool {
	return fname == "" || uOpenErr(fname) == nil && uFileErr(fname) == io.EOF && uParseErr(uFileData(fname)) == nil
}

func fileRules(fname string) []*Rule {
	if fname == "" {
		return nil
	}
	return uParse(uFileData(fname))
}

func filesOK(l []string, i int) bool {
	if i < 0 || i >= len(l) {
		return true
	}
	return fileOK(l[i]) && filesOK(l, i+1)
}

func filesRules(l []string, i int) []*Rule {
	if i < 0 || i >= len(l) {
		return nil
	}
	return append(fileRules(l[i]), filesRules(l, i+1)...)
}

// ---- C18, C19: the tables of addresses

// liveCount: the count of the address, if it has an entry that has not expired.
func liveCount(i *ipMap, ip string, ttl time.Duration) int {
	e := i.ips[ip]
	if e == nil || uSince(ghNow, e.when) >= ttl {
		return 0
	}
	return e.count
}

func isLive(i *ipMap, ip string, ttl time.Duration) bool {
	e := i.ips[ip]
	return e != nil && uSince(ghNow, e.when) < ttl
}

// entSame: the entry of the address is what it was.
func entSame(i *ipMap, k string, e *ipEnt, count int, when time.Time) bool {
	return i.ips[k] == e && (e == nil || e.count == count && e.when == when)
}

func entCount(e *ipEnt) int {
	if e == nil {
		return 0
	}
	return e.count
}

func entWhen(e *ipEnt) time.Time {
	if e == nil {
		return ghNow
	}
	return e.when
}

// textOf is the documented translation of the command line filters.
func textOf(std bool, fgd bool, fr string, ta string, hr string) string {
	s := ""
	if std {
		s = s + "reject from-has bad,route\nreject to-has bad,route\nreject helo-has none\n"
	}
	if fgd {
		s = s + "@message reject all\n"
	}
	if fr != "" {
		s = s + "reject from file:" + fr + "\n"
	}
	if ta != "" {
		s = s + "reject not to file:" + ta + "\n"
	}
	if hr != "" {
		s = s + "@from reject helo file:" + hr + "\n"
	}
	return s
}

func filterText(std bool) string { return textOf(std, failgotdata, fromreject, toaccept, heloreject) }
