package main

// Models of the environment and of library functions, for the verifier only.
// A function without a body is an arbitrary but fixed function of its arguments.

import (
	"bufio"
	"io"
	"net"
	"os"
	"strings"
	"time"
)

func assume(b bool)
func require(b bool, what string)

// sameMap: the two variables hold the same map object.
func sameMap(a, b map[string]string) bool

// ---- files: what is in the file system is a fixed but arbitrary function of the name

func uOpenErr(name string) error
func uFileData(name string) string // what can be read before the end or an error
func uFileErr(name string) error   // how reading ends: io.EOF, or another error

type ghFile struct{ name string }

type ghReader struct {
	rest string // what has not been read yet
	err  error  // what comes after it
}

func cast_File(g *ghFile) *os.File
func cast_ghFile(f *os.File) *ghFile
func cast_Reader(g *ghReader) *bufio.Reader
func cast_ghReader(r *bufio.Reader) *ghReader

//@ model os.Open
func modelOpen(name string) (*os.File, error) {
	assume(name != "" || uOpenErr(name) != nil)
	if e := uOpenErr(name); e != nil {
		return nil, e
	}
	return cast_File(&ghFile{name: name}), nil
}

//@ model bufio.NewReader
func modelNewReader(r io.Reader) *bufio.Reader {
	f := cast_ghFile(r.(*os.File))
	assume(uFileErr(f.name) != nil)
	return cast_Reader(&ghReader{rest: uFileData(f.name), err: uFileErr(f.name)})
}

//@ model (*bufio.Reader).ReadString
func modelReadString(r *bufio.Reader, delim byte) (string, error) {
	g := cast_ghReader(r)
	s := g.rest
	i := strings.IndexByte(s, delim)
	if i >= 0 {
		g.rest = s[i+1:]
		return s[:i+1], nil
	}
	g.rest = ""
	assume(g.err != nil)
	return s, g.err
}

func uFields(s string) []string

//@ model strings.Fields
func modelFields(s string) []string {
	l := uFields(s)
	assume((len(l) > 0) == (strings.TrimSpace(s) != ""))
	return l
}

// envList is what the pattern file holds, as this connection sees it.
func envList(fname string) []string {
	if fname == "" || uOpenErr(fname) != nil || uFileErr(fname) != io.EOF {
		return nil
	}
	return listFrom(uFileData(fname))
}

// envListed: the blocklist name resolves to at least one address.
func envListed(name string) bool {
	l, err := envLookupIP(name)
	return err == nil && len(l) > 0
}

func uLookupIP(name string) []net.IP
func uLookupIPErr(name string) error
func envLookupIP(name string) ([]net.IP, error) { return uLookupIP(name), uLookupIPErr(name) }

func uLookupMX(name string) []*net.MX
func uLookupMXErr(name string) error
func envLookupMX(name string) ([]*net.MX, error) { return uLookupMX(name), uLookupMXErr(name) }

func mxOK(l []*net.MX, i int) bool {
	if i < 0 || i >= len(l) {
		return true
	}
	return l[i] != nil && mxOK(l, i+1)
}

//@ model net.LookupIP
func modelLookupIP(host string) ([]net.IP, error) { return envLookupIP(host) }

//@ model net.LookupMX
func modelLookupMX(name string) ([]*net.MX, error) {
	l, err := envLookupMX(name)
	assume(err != nil || len(l) > 0)
	assume(mxOK(l, 0))
	return l, err
}

func uParseIP(s string) net.IP

//@ model net.ParseIP
func modelParseIP(s string) net.IP {
	r := uParseIP(s)
	assume(r == nil || len(r) == 16)
	return r
}

func uIPEqual(a, b net.IP) bool

//@ model (net.IP).Equal
func modelIPEqual(a net.IP, b net.IP) bool {
	r := uIPEqual(a, b)
	assume(!r || (len(a) == 0) == (len(b) == 0))
	return r
}

func uNet(s string) *net.IPNet
func uNetIP(s string) net.IP
func uNetErr(s string) error

//@ model net.ParseCIDR
func modelParseCIDR(s string) (net.IP, *net.IPNet, error) {
	n, e := uNet(s), uNetErr(s)
	assume((e == nil) == (n != nil))
	return uNetIP(s), n, e
}

func uContains(n *net.IPNet, ip net.IP) bool

//@ model (*net.IPNet).Contains
func modelContains(n *net.IPNet, ip net.IP) bool {
	require(n != nil, "netblock is not nil")
	return uContains(n, ip)
}

//@ model strings.TrimSuffix
func modelTrimSuffix(s, suf string) string {
	if strings.HasSuffix(s, suf) {
		return s[:len(s)-len(suf)]
	}
	return s
}

func uLastIndex(s, sub string) int

//@ model strings.LastIndex
func modelLastIndex(s, sub string) int {
	r := uLastIndex(s, sub)
	assume(sub == "" || r == -1 && !strings.Contains(s, sub) || r >= 0 && r+len(sub) <= len(s) && s[r:r+len(sub)] == sub && !strings.Contains(s[r+1:], sub))
	return r
}

func uLookupAddr(ip string) []string
func uLookupAddrErr(ip string) error
func envLookupAddr(ip string) ([]string, error) { return uLookupAddr(ip), uLookupAddrErr(ip) }

//@ model net.LookupAddr
func modelLookupAddr(ip string) ([]string, error) {
	l, err := envLookupAddr(ip)
	assume(len(l) == 0 || l[0] != "")
	return l, err
}

// uSorted: the strings in increasing order, each as often as before.
func uSorted(l []string) []string

//@ model sort.Strings mutates
func modelSortStrings(l []string) []string {
	r := uSorted(l)
	assume(len(r) == len(l))
	return r
}

//@ model io.ReadAll
func modelReadAll(r io.Reader) ([]byte, error) {
	if of, ok := r.(*os.File); ok {
		f := cast_ghFile(of)
		assume(uFileErr(f.name) != nil)
		if uFileErr(f.name) == io.EOF {
			return []byte(uFileData(f.name)), nil
		}
		return []byte(uFileData(f.name)), uFileErr(f.name)
	}
	return uReadData(r), uReadErr(r)
}

func uParse(text string) []*Rule
func uParseErr(text string) error

func eqRules(a, b []*Rule) bool

// ---- time and locks

var ghNow time.Time // the current time

func uSince(now time.Time, t time.Time) time.Duration

//@ model time.Now
func modelNow() time.Time { return ghNow }

//@ model time.Since
func modelSince(t time.Time) time.Duration { return uSince(ghNow, t) }

// held_ipMap_Mutex: this goroutine holds the lock of the table.
func held_ipMap_Mutex(i *ipMap) bool
