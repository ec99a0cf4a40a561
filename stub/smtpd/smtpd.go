// Package smtpd stands in for github.com/siebenmann/smtpd, which is not
// available in this sandbox. It has the part of the API that sinksmtp
// uses. It does no network I/O: events come from, and replies go to, an
// XPeer. The fields and functions starting with X are specification
// state: the event being answered, the reply it got, and the envelope
// that the client has been told was accepted.
package smtpd

import (
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"time"
)

// TimeFmt is smtpd's time format.
const TimeFmt = "2006-01-02 15:04:05 -0700"

// Command is an SMTP command.
type Command int

// SMTP commands.
const (
	noCmd Command = iota
	BadCmd
	HELO
	EHLO
	MAILFROM
	RCPTTO
	DATA
	QUIT
	RSET
	NOOP
	VRFY
	EXPN
	HELP
	AUTH
	STARTTLS
)

// Event is what happened in the conversation.
type Event int

// Events.
const (
	_ Event = iota
	COMMAND
	AUTHRESP
	AUTHABORT
	GOTDATA
	DONE
	ABORT
	TLSERROR
)

// EventInfo is an event with its details.
type EventInfo struct {
	What Event
	Cmd  Command
	Arg  string
}

// Limits has the limits of a conversation.
type Limits struct {
	CmdInput, MsgInput, ReplyOut, TLSSetup time.Duration
	MsgSize                                int64
	BadCmds                                int
	NoParams                               bool
}

// Config is the configuration of a conversation.
type Config struct {
	TLSConfig *tls.Config
	Limits    *Limits
	Delay     time.Duration
	SayTime   bool
	LocalName string
	SftName   string
	Announce  string
}

// XPeer is the scripted client.
type XPeer interface {
	XNext(c *Conn) EventInfo
	XReply(c *Conn, kind int, text string)
	XFail(c *Conn, what string)
}

// Replies.
const (
	XNone = iota
	XAccept
	XReject
	XTempfail
)

// Conn is an SMTP conversation.
type Conn struct {
	Config   Config
	TLSOn    bool
	TLSState tls.ConnectionState

	XP      XPeer
	XEvt    EventInfo // the event being answered
	XKind   int       // the reply it got
	XCount  int       // how many replies it got
	XText   string    // the text of the reply
	XHelo   string    // the last accepted greeting
	XFrom   string    // the last accepted sender since then
	XRcpts  []string  // the recipients accepted since then
	XDenied bool      // some command was refused
}

// NewConn starts a conversation.
func NewConn(conn net.Conn, cfg Config, log io.Writer) *Conn {
	c := &Conn{Config: cfg, XP: xpeer(conn), XRcpts: []string{}}
	xnew(c)
	return c
}

// xnew and xend are places for the verifier: a conversation starts, and the
// program is done with an event.
func xnew(c *Conn) {}
func xend(c *Conn) {}


func xpeer(conn net.Conn) XPeer {
	p, _ := conn.(XPeer)
	return p
}

// xevent gets the next event from the client.
func xevent(c *Conn) EventInfo {
	if c.XP == nil {
		return EventInfo{What: ABORT}
	}
	return c.XP.XNext(c)
}

// xcheck states an obligation of the program using this package.
func xcheck(c *Conn, ok bool, what string) {
	if !ok && c.XP != nil {
		c.XP.XFail(c, what)
	}
}

// xsent tells the client about a reply.
func xsent(c *Conn, kind int, text string) {
	if c.XP != nil {
		c.XP.XReply(c, kind, text)
	}
}

// XNeeds says whether an event has to be answered explicitly.
func XNeeds(e EventInfo) bool {
	return e.What == GOTDATA || e.What == COMMAND && (e.Cmd == MAILFROM || e.Cmd == RCPTTO || e.Cmd == DATA)
}

// XGreets says whether an event is a greeting, which is accepted unless it is refused.
func XGreets(e EventInfo) bool {
	return e.What == COMMAND && (e.Cmd == HELO || e.Cmd == EHLO)
}

// Next gets the next event.
func (c *Conn) Next() EventInfo {
	xend(c)
	xcheck(c, !XNeeds(c.XEvt) || c.XCount == 1, "every command and message gets exactly one reply")
	xcheck(c, XNeeds(c.XEvt) || c.XCount == 0 || XGreets(c.XEvt) && c.XCount == 1, "no reply where none is wanted")
	if XGreets(c.XEvt) && c.XCount == 0 {
		c.XKind = XAccept
		c.XHelo = c.XEvt.Arg
		c.XFrom = ""
		c.XRcpts = []string{}
		xsent(c, XAccept, "")
	}
	c.XKind = XNone
	c.XCount = 0
	c.XText = ""
	c.XEvt = xevent(c)
	return c.XEvt
}

func (c *Conn) reply(kind int, text string) {
	c.XKind = kind
	c.XCount++
	c.XText = text
	if kind == XAccept && c.XEvt.What == COMMAND {
		switch c.XEvt.Cmd {
		case HELO, EHLO:
			c.XHelo = c.XEvt.Arg
			c.XFrom = ""
			c.XRcpts = []string{}
		case MAILFROM:
			c.XFrom = c.XEvt.Arg
			c.XRcpts = []string{}
		case RCPTTO:
			c.XRcpts = append(c.XRcpts, c.XEvt.Arg)
		}
	}
	xsent(c, kind, text)
}

// Accept accepts the current command or message.
func (c *Conn) Accept() { c.reply(XAccept, "") }

// AcceptMsg accepts with a message.
func (c *Conn) AcceptMsg(format string, elems ...interface{}) {
	c.reply(XAccept, fmt.Sprintf(format, elems...))
}

// AcceptData accepts a message with an ID.
func (c *Conn) AcceptData(id string) { c.reply(XAccept, "I've put it in a can called "+id) }

// Reject refuses the current command or message.
func (c *Conn) Reject() { c.reply(XReject, "") }

// RejectMsg refuses with a message.
func (c *Conn) RejectMsg(format string, elems ...interface{}) {
	c.reply(XReject, fmt.Sprintf(format, elems...))
}

// RejectData refuses a message with an ID.
func (c *Conn) RejectData(id string) { c.reply(XReject, "Rejected with ID "+id) }

// Tempfail fails the current command or message temporarily.
func (c *Conn) Tempfail() { c.reply(XTempfail, "") }

// TempfailMsg fails temporarily with a message.
func (c *Conn) TempfailMsg(format string, elems ...interface{}) {
	c.reply(XTempfail, fmt.Sprintf(format, elems...))
}
