package main

// Executable specification functions. They are read in two ways: the verifier
// turns them into logical definitions, and the replay harness compiles and
// runs them as the oracle. They say what the manual (doc.go) says and do not
// call the code they specify.

import (
	"net"
	"strings"

	"github.com/siebenmann/smtpd"
)

// ---- lists of strings

func eqStrsFrom(a, b []string, i int) bool {
	if i >= len(a) {
		return true
	}
	return a[i] == b[i] && eqStrsFrom(a, b, i+1)
}

func eqStrs(a, b []string) bool {
	return len(a) == len(b) && eqStrsFrom(a, b, 0)
}

// ---- C01: address patterns

func specDomain(addr string) string {
	a := strings.ToLower(addr)
	return a[strings.IndexByte(a, '@')+1:]
}

func specMatchAddress(addr, pat string) bool {
	a := strings.ToLower(addr)
	if a == "" {
		return pat == "<>"
	}
	if strings.HasPrefix(a, "@") || strings.HasSuffix(a, "@") {
		return false
	}
	if a == pat {
		return true
	}
	i := strings.IndexByte(a, '@')
	if i < 0 {
		return pat == a+"@"
	}
	if pat == a[:i+1] || pat == "@" || pat == "@"+a[i+1:] {
		return true
	}
	return strings.HasPrefix(pat, "@.") && strings.HasSuffix("."+a[i+1:], pat[1:])
}

// ---- C02: host name patterns

func specHost(host, pat string) string {
	h := strings.ToLower(host)
	if strings.HasSuffix(h, ".") && !strings.HasSuffix(pat, ".") {
		return h[:len(h)-1]
	}
	return h
}

func specMatchHost(host, pat string) bool {
	if host == "" {
		return false
	}
	h := specHost(host, pat)
	return h == pat || strings.HasPrefix(pat, ".") && strings.HasSuffix("."+h, pat)
}

// ---- C03: IP patterns

func specMatchIp(rip, pat string) bool {
	ip := net.ParseIP(rip)
	if ip == nil {
		return false
	}
	ip2 := net.ParseIP(pat)
	if ip2 != nil && ip.Equal(ip2) {
		return true
	}
	_, n, err := net.ParseCIDR(pat)
	return err == nil && n.Contains(ip)
}

// ---- pattern arguments

func isFileArg(a string) bool {
	return strings.HasPrefix(a, "/") || strings.HasPrefix(a, "./") || strings.HasPrefix(a, "file:")
}

func fileOfArg(a string) string {
	if strings.HasPrefix(a, "file:") {
		return a[len("file:"):]
	}
	return a
}

// specList is the list of patterns a condition's argument stands for.
func specList(a string) []string {
	if isFileArg(a) {
		return envList(fileOfArg(a))
	}
	return []string{strings.ToLower(a)}
}

// ---- C06: the meaning of conditions

func anyElem(els []string, j int, p string, m func(string, string) bool) bool {
	if j < 0 || j >= len(els) {
		return false
	}
	return m(els[j], p) || anyElem(els, j+1, p, m)
}

func anyPat(pl []string, i int, els []string, m func(string, string) bool) bool {
	if i < 0 || i >= len(pl) {
		return false
	}
	return anyElem(els, 0, pl[i], m) || anyPat(pl, i+1, els, m)
}

func anyListed(names []string, i int, domain string) bool {
	if i < 0 || i >= len(names) {
		return false
	}
	return envListed(strings.TrimSuffix(names[i], ".")+"."+domain) || anyListed(names, i+1, domain)
}

// ---- C04: address attributes

func textAddrOpts(a string) Option {
	var o Option
	i := strings.IndexByte(a, '@')
	if i < 0 {
		o |= oNoat
	}
	if i >= 0 && strings.IndexByte(a[i+1:], '.') < 0 {
		o |= oUnqualified
	}
	if i == 0 && strings.IndexByte(a[1:], '@') >= 0 {
		o |= oRoute
	}
	last := a[len(a)-1]
	if i == 0 && strings.IndexByte(a[1:], '@') < 0 || a[0] == '<' || last == '>' || last == '"' || last == ']' || last == '.' ||
		i == len(a)-1 || strings.Contains(a, "..") || strings.Contains(a, "@@") {
		o |= oGarbage
	}
	q := strings.IndexByte(a, '"')
	if q >= 0 && q != len(a)-1 {
		o |= oQuoted
	}
	return o
}

func specAddrOpts(a string) Option {
	if a == "" {
		return 0
	}
	o := textAddrOpts(a)
	if o&(oNoat|oUnqualified|oGarbage|oRoute) == 0 {
		switch specValidDomain(a[strings.IndexByte(a, '@')+1:]) {
		case dnsGood:
			o |= oDomainValid
		case dnsTempfail:
			o |= oDomainTempfail
		default:
			o |= oDomainInvalid
		}
	}
	return o
}

// ---- C05: greeting and reverse DNS attributes

func specDnsOpts(r *rDNSResults) Option {
	var o Option
	if len(r.verified) > 0 {
		o |= oExists
	} else {
		o |= oNodns
	}
	if len(r.nofwd) > 0 {
		o |= oNofwd
	}
	if len(r.inconsist) > 0 {
		o |= oInconsist
	}
	if len(r.verified) > 0 && len(r.nofwd) == 0 && len(r.inconsist) == 0 {
		o |= oGood
	}
	return o
}

func specHeloIP(hn string) net.IP {
	if len(hn) > 2 && hn[0] == '[' && hn[len(hn)-1] == ']' && net.ParseIP(hn[1:len(hn)-1]) != nil {
		return net.ParseIP(hn[1 : len(hn)-1])
	}
	return net.ParseIP(hn)
}

func specHeloOpts(cmd smtpd.Command, hn, rip, lip string) Option {
	var o Option
	if cmd == smtpd.HELO {
		o |= oHelo
	} else {
		o |= oEhlo
	}
	if hn == "" {
		o |= oNone
	}
	if hn == "." {
		o |= oBogus
	}
	if hn == "." || strings.IndexByte(hn, '.') < 0 && strings.IndexByte(hn, ':') < 0 {
		o |= oNodots
	}
	if hn == "" || hn == "." {
		return o
	}
	if net.ParseIP(hn) != nil {
		o |= oBareip
	}
	if len(hn) > 2 && hn[0] == '[' && hn[len(hn)-1] == ']' && net.ParseIP(hn[1:len(hn)-1]) != nil {
		o |= oProperip
	}
	ip := specHeloIP(hn)
	if ip != nil {
		if ip.Equal(net.ParseIP(rip)) {
			o |= oRemip
		} else if ip.Equal(net.ParseIP(lip)) {
			o |= oMyip
		} else {
			o |= oOtherip
		}
	}
	return o
}

// ---- C21: mail domains

func addrsOK(l []net.IP, i int) bool {
	if i < 0 || i >= len(l) {
		return true
	}
	return l[i].IsGlobalUnicast() && !privateIP(l[i]) && addrsOK(l, i+1)
}

func privateIP(ip net.IP) bool {
	return inNet("10.0.0.0/8", ip) || inNet("172.16.0.0/12", ip) || inNet("192.168.0.0/16", ip) || inNet("FC00::/7", ip) || inNet("FEC0::/10", ip)
}

func inNet(block string, ip net.IP) bool {
	_, n, _ := net.ParseCIDR(block)
	return n.Contains(ip)
}

func tempErr(err error) bool {
	e, ok := err.(*net.DNSError)
	return ok && (e.Temporary() || e.Err == "server misbehaving")
}

func specCheckIP(host string) dnsResult {
	l, err := envLookupIP(host)
	if err != nil {
		if tempErr(err) {
			return dnsTempfail
		}
		return dnsBad
	}
	if len(l) == 0 || !addrsOK(l, 0) {
		return dnsBad
	}
	return dnsGood
}

func bogusMX(l []*net.MX, i int) bool {
	if i < 0 || i >= len(l) {
		return false
	}
	h := strings.ToLower(l[i].Host)
	return h == "." || h == "localhost." || bogusMX(l, i+1)
}

// bestMX is the best result of the hosts from i on: good, else unknown, else bad.
func bestMX(l []*net.MX, i int) dnsResult {
	if i < 0 || i >= len(l) {
		return dnsUndef
	}
	v := specCheckIP(l[i].Host)
	w := bestMX(l, i+1)
	if w > v {
		return w
	}
	return v
}

func specValidDomain(domain string) dnsResult {
	l, err := envLookupMX(domain + ".")
	if err != nil {
		if tempErr(err) {
			return dnsTempfail
		}
		return specCheckIP(domain + ".")
	}
	if bogusMX(l, 0) {
		return dnsBad
	}
	return bestMX(l, 0)
}

func maxRes(a, b dnsResult) dnsResult {
	if b > a {
		return b
	}
	return a
}

func inStrs(l []string, i int, s string) bool {
	if i < 0 || i >= len(l) {
		return false
	}
	return l[i] == s || inStrs(l, i+1, s)
}
