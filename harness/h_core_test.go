package main

// Core of the replay harness: a fake DNS, a deterministic random source,
// reporting, and time limits. The harness runs the real code of /repo
// against executable specifications; it looks for a failing input when an
// obligation fails and doubles as a check of the trusted models.

import (
	"context"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

var (
	hSeed     int64 = 1
	hBudget         = 10 * time.Second
	hEnd      time.Time
	hDir      string
	hCases    int64
	hNontriv  int64
	hBeat     int64
	hCur      atomic.Value
	hSamples  []string
	hRnd      *rand.Rand
	hSeedsStr []string
)

func TestMain(m *testing.M) {
	if s := os.Getenv("H_SEED"); s != "" {
		hSeed, _ = strconv.ParseInt(s, 10, 64)
	}
	if s := os.Getenv("H_MS"); s != "" {
		n, _ := strconv.Atoi(s)
		hBudget = time.Duration(n) * time.Millisecond
	}
	if s := os.Getenv("H_STRS"); s != "" {
		hSeedsStr = strings.Split(s, "\x01")
	}
	hRnd = rand.New(rand.NewSource(hSeed))
	var err error
	hDir, err = os.MkdirTemp("", "hrun")
	if err != nil {
		panic(err)
	}
	hCur.Store("start")
	hDNS()
	go hWatch()
	go func() {
		for s := range uniquer {
			hWarn(s)
		}
	}()
	if stallall == nil {
		func() {
			defer func() { recover() }()
			genStallRules()
		}()
	}
	// the code's own warnings are of no interest
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = dn
	}
	hEnd = time.Now().Add(hBudget)
	rc := m.Run()
	os.RemoveAll(hDir)
	fmt.Printf("HSTATS cases=%d nontrivial=%d\n", hCases, hNontriv)
	for _, s := range hSamples {
		fmt.Printf("HSAMPLE %s\n", strconv.Quote(s))
	}
	os.Exit(rc)
}

var hWarnings atomic.Value

func hWarn(s string) {
	l, _ := hWarnings.Load().([]string)
	hWarnings.Store(append(append([]string{}, l...), s))
}

func hWarnCount() int {
	l, _ := hWarnings.Load().([]string)
	return len(l)
}

// hWatch stops a case that does not end.
func hWatch() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		b := atomic.LoadInt64(&hBeat)
		if b != last {
			last, since = b, time.Now()
			continue
		}
		if b > 0 && time.Since(since) > 20*time.Second {
			fmt.Printf("FOUND no end within 20 s: %v\n", hCur.Load())
			os.RemoveAll(hDir)
			os.Exit(1)
		}
	}
}

// hLoop runs f until the time is up. f returns a description of the case if it failed.
func hLoop(t *testing.T, min int, f func() string) {
	for i := 0; i < min || time.Now().Before(hEnd); i++ {
		atomic.AddInt64(&hBeat, 1)
		hCases++
		if s := hTry(f); s != "" {
			hFound(s)
			t.FailNow()
		}
	}
	atomic.StoreInt64(&hBeat, 0)
}

func hFound(s string) {
	fmt.Printf("FOUND %s\n", strings.ReplaceAll(s, "\n", "\\n"))
}

func hTry(f func() string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			l := strings.Split(st, "\n")
			if len(l) > 9 {
				l = l[:9]
			}
			out = fmt.Sprintf("run-time panic: %v in case %v [%s]", r, hCur.Load(), strings.Join(l, " | "))
		}
	}()
	return f()
}

func hCase(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	hCur.Store(s)
	if len(hSamples) < 3 && len(s) < 600 {
		hSamples = append(hSamples, s)
	}
}

func hInt(n int) int          { return hRnd.Intn(n) }
func hOne(n int) bool         { return hRnd.Intn(n) == 0 }
func hPick(l []string) string { return l[hRnd.Intn(len(l))] }

// ---- strings

func hChars(alpha string, max int) string {
	n := hInt(max + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[hInt(len(alpha))]
	}
	return string(b)
}

func hMutate(s string) string {
	switch hInt(9) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		if s != "" {
			i := hInt(len(s))
			return s[:i] + s[i+1:]
		}
	case 2:
		i := hInt(len(s) + 1)
		return s[:i] + string(".@a-<>\":"[hInt(8)]) + s[i:]
	case 3:
		return s + "."
	case 4:
		return "." + s
	case 5:
		if i := strings.IndexByte(s, '.'); i >= 0 {
			return s[i:]
		}
	case 6:
		if i := strings.IndexByte(s, '@'); i >= 0 {
			return s[i:]
		}
	case 7:
		if i := strings.IndexByte(s, '@'); i >= 0 {
			return s[:i+1]
		}
	case 8:
		if i := strings.IndexByte(s, '@'); i >= 0 {
			return s[:i+1] + "." + s[i+1:]
		}
	}
	return s
}

// ---- DNS. Every name has an answer that depends on the name and a salt.

var hSalt int64
var hZone = map[string]hAns{} // fixed answers: "A name", "MX name", "PTR name", "TXT name"

type hAns struct {
	rcode int
	ips   []string
	names []string
}

func hHash(s string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", hSalt, s)
	x := h.Sum64()
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	return x
}

var hPubIPs = []string{"192.0.2.7", "198.51.100.3", "203.0.113.9", "192.0.2.1", "2001:db8::1", "8.8.8.8", "8.9.10.11", "172.32.0.1", "172.15.255.255", "11.0.0.1", "9.255.255.255", "192.169.0.1", "192.167.255.255", "2001:4860::8"}
var hBadIPs = []string{"10.1.2.3", "10.255.255.255", "172.16.0.1", "172.20.9.9", "172.31.255.255", "192.168.0.1", "192.168.255.1", "127.0.0.1", "169.254.3.4", "224.0.0.1", "0.0.0.0", "255.255.255.255", "fc00::1", "fd12::7", "fec0::1", "feff::2", "fe80::1", "::1", "ff02::1"}

func hAnswer(kind, name string) hAns {
	name = strings.ToLower(name)
	if a, ok := hZone[kind+" "+name]; ok {
		return a
	}
	h := hHash(kind + " " + name)
	r := func(n int) int { v := int(h % uint64(n)); h = h/uint64(n)*7919 + h; return v }
	switch kind {
	case "A":
		switch x := r(10); {
		case x < 4:
			var a hAns
			n := 1 + r(3)
			for i := 0; i < n; i++ {
				if r(5) == 0 {
					a.ips = append(a.ips, hBadIPs[r(len(hBadIPs))])
				} else {
					a.ips = append(a.ips, hPubIPs[r(len(hPubIPs))])
				}
			}
			return a
		case x < 5:
			return hAns{ips: []string{hBadIPs[r(len(hBadIPs))]}}
		case x < 6:
			return hAns{rcode: 2}
		case x < 7:
			return hAns{}
		default:
			return hAns{rcode: 3}
		}
	case "MX":
		switch x := r(10); {
		case x < 6:
			var a hAns
			n := 1 + r(3)
			for i := 0; i < n; i++ {
				switch y := r(14); {
				case y == 0:
					a.names = append(a.names, ".")
				case y == 1:
					a.names = append(a.names, "localhost.")
				case y == 2:
					a.names = append(a.names, "LocalHost.")
				default:
					a.names = append(a.names, fmt.Sprintf("mx%d.h%d.net.", r(4), r(9)))
				}
			}
			return a
		case x < 7:
			return hAns{rcode: 2}
		case x < 8:
			return hAns{}
		default:
			return hAns{rcode: 3}
		}
	case "PTR":
		switch x := r(10); {
		case x < 7:
			var a hAns
			n := 1 + r(4)
			for i := 0; i < n; i++ {
				a.names = append(a.names, hPick2(h+uint64(i), hHosts)+".")
			}
			return a
		case x < 8:
			return hAns{rcode: 2}
		default:
			return hAns{rcode: 3}
		}
	}
	return hAns{rcode: 3}
}

func hPick2(h uint64, l []string) string {
	h ^= h >> 13
	return l[int(h%uint64(len(l)))]
}

var hHosts = []string{"a.example.com", "mail.example.com", "b.org", "x.y.b.org", "host.spam.net", "zz.net", "q.r.s.t"}

func hDNS() {
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, nw, addr string) (net.Conn, error) {
		a, b := net.Pipe()
		go hServe(b)
		return a, nil
	}}
}

func hServe(c net.Conn) {
	defer c.Close()
	for {
		var l [2]byte
		if !hRead(c, l[:]) {
			return
		}
		q := make([]byte, binary.BigEndian.Uint16(l[:]))
		if !hRead(c, q) {
			return
		}
		r := hReply(q)
		out := make([]byte, 2+len(r))
		binary.BigEndian.PutUint16(out, uint16(len(r)))
		copy(out[2:], r)
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

func hRead(c net.Conn, b []byte) bool {
	n := 0
	for n < len(b) {
		k, err := c.Read(b[n:])
		if err != nil {
			return false
		}
		n += k
	}
	return true
}

func hName(s string) []byte {
	var out []byte
	s = strings.TrimSuffix(s, ".")
	if s != "" {
		for _, l := range strings.Split(s, ".") {
			out = append(out, byte(len(l)))
			out = append(out, l...)
		}
	}
	return append(out, 0)
}

func hReply(q []byte) []byte {
	p := 12
	var labels []string
	for q[p] != 0 {
		n := int(q[p])
		labels = append(labels, string(q[p+1:p+1+n]))
		p += 1 + n
	}
	p++
	qt := binary.BigEndian.Uint16(q[p:])
	p += 4
	name := strings.Join(labels, ".") + "."
	kind := map[uint16]string{1: "A", 28: "A", 15: "MX", 12: "PTR", 16: "TXT"}[qt]
	var a hAns
	if kind == "" {
		a.rcode = 3
	} else {
		a = hAnswer(kind, name)
	}
	var rrs [][]byte
	rr := func(typ uint16, data []byte) {
		b := append([]byte{0xc0, 12}, 0, 0, 0, 1, 0, 0, 0, 60, 0, 0)
		binary.BigEndian.PutUint16(b[2:], typ)
		binary.BigEndian.PutUint16(b[10:], uint16(len(data)))
		rrs = append(rrs, append(b, data...))
	}
	if a.rcode == 0 {
		for _, s := range a.ips {
			ip := net.ParseIP(s)
			if v4 := ip.To4(); v4 != nil && qt == 1 {
				rr(1, v4)
			} else if v4 == nil && qt == 28 {
				rr(28, ip)
			}
		}
		for i, s := range a.names {
			switch qt {
			case 15:
				rr(15, append([]byte{0, byte(10 + i)}, hName(s)...))
			case 12:
				rr(12, hName(s))
			case 16:
				rr(16, append([]byte{byte(len(s))}, s...))
			}
		}
	}
	h := make([]byte, 12)
	copy(h, q[:2])
	h[2], h[3] = 0x81, byte(0x80|a.rcode)
	binary.BigEndian.PutUint16(h[4:], 1)
	binary.BigEndian.PutUint16(h[6:], uint16(len(rrs)))
	out := append(h, q[12:p]...)
	for _, r := range rrs {
		out = append(out, r...)
	}
	return out
}

// ---- files, and the environment functions of the specification

var hFileN int

func hFile(content string) string {
	hFileN++
	fn := fmt.Sprintf("%s/f%d", hDir, hFileN)
	if err := os.WriteFile(fn, []byte(content), 0600); err != nil {
		panic(err)
	}
	return fn
}

func hBlank(b byte) bool {
	return b == ' ' || b == '\t' || b == '\r' || b == '\v' || b == '\f'
}

// specLines is what a list file stands for.
func specLines(content string) []string {
	var out []string
	for _, l := range strings.Split(content, "\n") {
		for l != "" && hBlank(l[0]) {
			l = l[1:]
		}
		for l != "" && hBlank(l[len(l)-1]) {
			l = l[:len(l)-1]
		}
		if l == "" || l[0] == '#' {
			continue
		}
		out = append(out, strings.ToLower(l))
	}
	return out
}

func envList(fname string) []string {
	if fname == "" {
		return nil
	}
	b, err := os.ReadFile(fname)
	if err != nil {
		return nil
	}
	return specLines(string(b))
}

func envLookupIP(name string) ([]net.IP, error)  { return net.LookupIP(name) }
func envLookupMX(name string) ([]*net.MX, error) { return net.LookupMX(name) }
func envListed(name string) bool {
	l, err := net.LookupIP(name)
	return err == nil && len(l) > 0
}
