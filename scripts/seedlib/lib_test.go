package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"io"
	"net"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/siebenmann/smtpd"
)

// ---- an in-memory DNS: zone["A name."], zone["MX name."], zone["PTR name."]
// are lists; a missing name does not exist, and "SERVFAIL" fails.
var zone = map[string][]string{}

func TestMain(m *testing.M) {
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, nw, addr string) (net.Conn, error) {
		a, b := net.Pipe()
		go serve(b)
		return a, nil
	}}
	go func() {
		for range uniquer {
		}
	}()
	genStallRules()
	yakTimeout = 8 * time.Hour
	minphase = "helo"
	hashtype = "msg"
	os.Exit(m.Run())
}

func serve(c net.Conn) {
	defer c.Close()
	for {
		var l [2]byte
		if _, err := io.ReadFull(c, l[:]); err != nil {
			return
		}
		q := make([]byte, binary.BigEndian.Uint16(l[:]))
		if _, err := io.ReadFull(c, q); err != nil {
			return
		}
		r := reply(q)
		out := make([]byte, 2+len(r))
		binary.BigEndian.PutUint16(out, uint16(len(r)))
		copy(out[2:], r)
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

func dname(s string) []byte {
	var out []byte
	s = strings.TrimSuffix(s, ".")
	if s != "" {
		for _, l := range strings.Split(s, ".") {
			out = append(out, byte(len(l)))
			out = append(out, l...)
		}
	}
	return append(out, 0)
}

func reply(q []byte) []byte {
	p := 12
	name := ""
	for q[p] != 0 {
		n := int(q[p])
		name += string(q[p+1:p+1+n]) + "."
		p += 1 + n
	}
	p++
	qt := binary.BigEndian.Uint16(q[p:])
	p += 4
	kind := map[uint16]string{1: "A", 28: "A", 15: "MX", 12: "PTR", 16: "TXT"}[qt]
	l, ok := zone[kind+" "+strings.ToLower(name)]
	rcode := 0
	if !ok {
		rcode = 3
	} else if len(l) == 1 && l[0] == "SERVFAIL" {
		rcode, l = 2, nil
	}
	var rrs [][]byte
	rr := func(typ uint16, data []byte) {
		b := append([]byte{0xc0, 12}, 0, 0, 0, 1, 0, 0, 0, 60, 0, 0)
		binary.BigEndian.PutUint16(b[2:], typ)
		binary.BigEndian.PutUint16(b[10:], uint16(len(data)))
		rrs = append(rrs, append(b, data...))
	}
	for i, s := range l {
		switch {
		case kind == "A":
			ip := net.ParseIP(s)
			if v4 := ip.To4(); v4 != nil && qt == 1 {
				rr(1, v4)
			} else if v4 == nil && qt == 28 {
				rr(28, ip)
			}
		case kind == "MX":
			rr(15, append([]byte{0, byte(10 + i)}, dname(s)...))
		case kind == "PTR":
			rr(12, dname(s))
		case kind == "TXT":
			rr(16, append([]byte{byte(len(s))}, s...))
		}
	}
	h := make([]byte, 12)
	copy(h, q[:2])
	h[2], h[3] = 0x81, byte(0x80|rcode)
	binary.BigEndian.PutUint16(h[4:], 1)
	binary.BigEndian.PutUint16(h[6:], uint16(len(rrs)))
	out := append(h, q[12:p]...)
	for _, r := range rrs {
		out = append(out, r...)
	}
	return out
}

// ---- a scripted client

type adr string

func (a adr) Network() string { return "tcp" }
func (a adr) String() string  { return string(a) }

type client struct {
	local, remote string
	script        []smtpd.EventInfo
	replies       []int
	texts         []string
	conf          smtpd.Config
	log           bytes.Buffer
	smtplog       bytes.Buffer
	before        func(c *smtpd.Conn, e smtpd.EventInfo)
}

func (c *client) Read(b []byte) (int, error)         { return 0, io.EOF }
func (c *client) Write(b []byte) (int, error)        { return len(b), nil }
func (c *client) Close() error                       { return nil }
func (c *client) LocalAddr() net.Addr                { return adr(c.local) }
func (c *client) RemoteAddr() net.Addr               { return adr(c.remote) }
func (c *client) SetDeadline(t time.Time) error      { return nil }
func (c *client) SetReadDeadline(t time.Time) error  { return nil }
func (c *client) SetWriteDeadline(t time.Time) error { return nil }
func (c *client) XNext(s *smtpd.Conn) smtpd.EventInfo {
	c.conf = s.Config
	if len(c.script) == 0 {
		return smtpd.EventInfo{What: smtpd.DONE}
	}
	e := c.script[0]
	c.script = c.script[1:]
	if c.before != nil {
		c.before(s, e)
	}
	return e
}
func (c *client) XReply(s *smtpd.Conn, kind int, text string) {
	c.replies = append(c.replies, kind)
	c.texts = append(c.texts, text)
}
func (c *client) XFail(s *smtpd.Conn, what string) { panic(what) }

func newClient(script ...smtpd.EventInfo) *client {
	return &client{local: "192.0.2.1:25", remote: "198.51.100.3:1234", script: script}
}

func cmd(c smtpd.Command, arg string) smtpd.EventInfo {
	return smtpd.EventInfo{What: smtpd.COMMAND, Cmd: c, Arg: arg}
}
func message(s string) smtpd.EventInfo {
	return smtpd.EventInfo{What: smtpd.GOTDATA, Arg: s}
}

func rules(t *testing.T, text string) []*Rule {
	r, err := Parse(text)
	if err != nil {
		t.Fatalf("%q: %v", text, err)
	}
	return r
}

func context0(rs []*Rule) *Context {
	tr := &smtpTransaction{rip: "198.51.100.3", lip: "192.0.2.1", rdns: &rDNSResults{}}
	tr.raddr, tr.laddr = adr("198.51.100.3:1234"), adr("192.0.2.1:25")
	return newContext(tr, rs)
}
