package main

// Models of buffers, writers, files being written, and hashes, for the verifier only.

import (
	"bufio"
	"bytes"
	"fmt"
	"hash"
	"io"
	"net/mail"
	"os"
	"strings"
)

func anyString() string
func anyInt() int
func anyError() error

// ---- buffers and buffered writers

type ghBuf struct {
	s     string
	owner *ghWriter // the buffered writer in front of it
}

// ghWriter: a buffered writer. What is in the target before Flush is not known.
type ghWriter struct {
	target io.Writer
	base   string // what was in the target before
	all    string // everything written
}

// ghSink: what was written to a writer that is not one of the above.
type ghSink struct {
	out   string
	n     int      // how many writes
	lines []string // the separate writes
}

func cast_ghBuf(b *bytes.Buffer) *ghBuf
func cast_ghWriter(w *bufio.Writer) *ghWriter
func cast_ghW(w io.Writer) *ghWriter
func cast_Writer(g *ghWriter) *bufio.Writer
func cast_ghSink(w io.Writer) *ghSink

//@ model new bytes.Buffer
func modelNewBuffer(b *bytes.Buffer) {
	g := cast_ghBuf(b)
	g.s = ""
	g.owner = nil
}

func bufAdd(g *ghBuf, s string) {
	if g.owner != nil {
		g.owner.base = anyString()
	}
	g.s += s
}

func sinkAdd(w io.Writer, s string) {
	g := cast_ghSink(w)
	g.out += s
	g.n++
}

func writerAdd(g *ghWriter, s string) {
	g.all += s
	if b, ok := g.target.(*bytes.Buffer); ok {
		cast_ghBuf(b).s = anyString()
	}
}

//@ model bufio.NewWriter
func modelNewWriter(w io.Writer) *bufio.Writer {
	g := &ghWriter{target: w}
	if b, ok := w.(*bytes.Buffer); ok {
		gb := cast_ghBuf(b)
		g.base = gb.s
		if gb.owner != nil {
			gb.owner.base = anyString()
			g.base = anyString()
		}
		gb.owner = g
	}
	return cast_Writer(g)
}

//@ model bufio.NewWriterSize
func modelNewWriterSize(w io.Writer, n int) *bufio.Writer { return modelNewWriter(w) }

//@ model (*bufio.Writer).Flush
func modelFlush(w *bufio.Writer) error {
	require(w != nil, "buffered writer is not nil")
	g := cast_ghWriter(w)
	if b, ok := g.target.(*bytes.Buffer); ok {
		cast_ghBuf(b).s = g.base + g.all
		return nil
	}
	return anyError()
}

//@ model (*bufio.Writer).Write
func modelWriterWrite(w *bufio.Writer, b []byte) (int, error) {
	require(w != nil, "buffered writer is not nil")
	writerAdd(cast_ghWriter(w), string(b))
	if _, ok := cast_ghWriter(w).target.(*bytes.Buffer); ok {
		return len(b), nil
	}
	return anyInt(), anyError()
}

//@ model (*bufio.Writer).WriteString
func modelWriterWriteString(w *bufio.Writer, s string) (int, error) {
	return modelWriterWrite(w, []byte(s))
}

//@ model (*bytes.Buffer).Write
func modelBufferWrite(b *bytes.Buffer, p []byte) (int, error) {
	bufAdd(cast_ghBuf(b), string(p))
	return len(p), nil
}

//@ model (*bytes.Buffer).WriteString
func modelBufferWriteString(b *bytes.Buffer, s string) (int, error) {
	bufAdd(cast_ghBuf(b), s)
	return len(s), nil
}

//@ model (*bytes.Buffer).Bytes
func modelBufferBytes(b *bytes.Buffer) []byte { return []byte(cast_ghBuf(b).s) }

//@ model (*bytes.Buffer).String
func modelBufferString(b *bytes.Buffer) string { return cast_ghBuf(b).s }

//@ model (*bytes.Buffer).Len
func modelBufferLen(b *bytes.Buffer) int { return len(cast_ghBuf(b).s) }

//@ model (*bytes.Buffer).WriteByte
func modelBufferWriteByte(b *bytes.Buffer, c byte) error {
	bufAdd(cast_ghBuf(b), string([]byte{c}))
	return nil
}

// strings.Builder: as bytes.Buffer

func cast_ghBld(b *strings.Builder) *ghBuf

//@ model new strings.Builder
func modelNewBuilder(b *strings.Builder) {
	g := cast_ghBld(b)
	g.s = ""
	g.owner = nil
}

//@ model (*strings.Builder).Write
func modelBuilderWrite(b *strings.Builder, p []byte) (int, error) {
	bufAdd(cast_ghBld(b), string(p))
	return len(p), nil
}

//@ model (*strings.Builder).WriteString
func modelBuilderWriteString(b *strings.Builder, s string) (int, error) {
	bufAdd(cast_ghBld(b), s)
	return len(s), nil
}

//@ model (*strings.Builder).WriteByte
func modelBuilderWriteByte(b *strings.Builder, c byte) error {
	bufAdd(cast_ghBld(b), string([]byte{c}))
	return nil
}

//@ model (*strings.Builder).String
func modelBuilderString(b *strings.Builder) string { return cast_ghBld(b).s }

//@ model (*strings.Builder).Len
func modelBuilderLen(b *strings.Builder) int { return len(cast_ghBld(b).s) }

//@ model io.Writer.Write
func modelIOWrite(w io.Writer, b []byte) (int, error) {
	sinkAdd(w, string(b))
	return anyInt(), anyError()
}

//@ model fprint
func modelFprint(w io.Writer, s string) {
	require(w != nil, "writer is not nil")
	if b, ok := w.(*bytes.Buffer); ok {
		bufAdd(cast_ghBuf(b), s)
		return
	}
	if b, ok := w.(*bufio.Writer); ok {
		writerAdd(cast_ghWriter(b), s)
		return
	}
	if b, ok := w.(*strings.Builder); ok {
		bufAdd(cast_ghBld(b), s)
		return
	}
	if f, ok := w.(*os.File); ok && f != nil {
		return
	}
	sinkAdd(w, s)
}

//@ model io.WriteString
func modelIOWriteString(w io.Writer, s string) (int, error) {
	modelFprint(w, s)
	return anyInt(), anyError()
}

// ---- hashes

type ghHash struct{ s string }

func cast_Hash(g *ghHash) hash.Hash
func cast_ghHash(h hash.Hash) *ghHash

// uSha1: the SHA-1 of a string.
func uSha1(s string) []byte

//@ model sha1.New
func modelSha1New() hash.Hash { return cast_Hash(&ghHash{}) }

//@ model hash.Hash.Write
func modelHashWrite(h hash.Hash, b []byte) (int, error) {
	cast_ghHash(h).s += string(b)
	return len(b), nil
}

//@ model hash.Hash.Sum
func modelHashSum(h hash.Hash, b []byte) []byte { return append(b, uSha1(cast_ghHash(h).s)...) }

// ---- mail parsing

type ghStrReader struct{ s string }

func cast_StrReader(g *ghStrReader) *strings.Reader
func cast_ghStrReader(r *strings.Reader) *ghStrReader

func uMailErr(text string) error
func uMailBody(text string) io.Reader
func uReadData(r io.Reader) []byte
func uReadErr(r io.Reader) error

//@ model strings.NewReader
func modelStrReader(s string) *strings.Reader { return cast_StrReader(&ghStrReader{s: s}) }

//@ model mail.ReadMessage
func modelReadMessage(r io.Reader) (*mail.Message, error) {
	s := cast_ghStrReader(r.(*strings.Reader)).s
	if e := uMailErr(s); e != nil {
		return nil, e
	}
	m := &mail.Message{Body: uMailBody(s)}
	_, isFile := m.Body.(*os.File)
	assume(!isFile)
	return m, nil
}

// ---- files being written

type ghOut struct {
	name string
	data string
}

func cast_OutFile(g *ghOut) *os.File
func cast_ghOut(f *os.File) *ghOut

var ghOutName string // the file created last
var ghOutData string // what is in it
var ghOutState int   // 0 no file was created, 1 open, 2 closed without error, 3 an error has happened
var ghOutFile *os.File
var ghOutGone bool   // it was removed again

func uCreateErr(name string) error

//@ model os.OpenFile
func modelOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag&os.O_APPEND != 0 {
		// a log file
		if e := uCreateErr(name); e != nil {
			return nil, e
		}
		return cast_OutFile(&ghOut{name: name}), nil
	}
	require(flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0, "a message file is only ever created, never opened when it exists")
	require(flag&(os.O_WRONLY|os.O_RDWR) != 0, "a message file is opened for writing")
	if e := uCreateErr(name); e != nil {
		return nil, e
	}
	ghOutName = name
	ghOutData = ""
	ghOutState = 1
	ghOutGone = false
	ghOutFile = cast_OutFile(&ghOut{name: name})
	return ghOutFile, nil
}

//@ model os.Create
func modelCreate(name string) (*os.File, error) {
	return modelOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
}

//@ model (*os.File).Write
func modelFileWrite(f *os.File, b []byte) (int, error) {
	require(f != nil, "file is not nil")
	e := anyError()
	if e != nil {
		if f == ghOutFile {
			ghOutData = anyString()
			ghOutState = 3
		}
		return anyInt(), e
	}
	if ghOutState == 1 && f == ghOutFile {
		ghOutData += string(b)
	}
	return len(b), nil
}

//@ model (*os.File).WriteString
func modelFileWriteString(f *os.File, s string) (int, error) { return modelFileWrite(f, []byte(s)) }

//@ model (*os.File).Sync
func modelFileSync(f *os.File) error { return anyError() }

//@ model (*os.File).Close
func modelFileClose(f *os.File) error {
	e := anyError()
	if ghOutState == 1 && f == ghOutFile {
		if e == nil {
			ghOutState = 2
		} else {
			ghOutState = 3
		}
	}
	return e
}

//@ model os.Remove
func modelRemove(name string) error {
	require(ghOutState != 0 && name == ghOutName, "only a message file created just now is removed")
	ghOutGone = true
	return anyError()
}

// ---- C15: save files

func specHash(s string) string { return fmt.Sprintf("%x", uSha1(s)) }

func specBodyHash(data string) string {
	if uMailErr(data) != nil {
		return "<cannot-parse-message>"
	}
	if uReadErr(uMailBody(data)) != nil {
		return "<cannot-read-body?>"
	}
	return specHash(string(uReadData(uMailBody(data))))
}

// wordsFrom: the names from i on, each after a blank.
func wordsFrom(l []string, i int) string {
	if i < 0 || i >= len(l) {
		return ""
	}
	return " " + l[i] + wordsFrom(l, i+1)
}

func dnsLine(pref string, l []string) string {
	if len(l) == 0 {
		return ""
	}
	return pref + wordsFrom(l, 0) + "\n"
}

// toLines: one line per recipient from i on.
func toLines(l []string, i int) string {
	if i < 0 || i >= len(l) {
		return ""
	}
	return "to <" + l[i] + ">\n" + toLines(l, i+1)
}

func specTLSLine(t *smtpTransaction) string {
	if !t.tlson {
		return ""
	}
	s := fmt.Sprintf("tls on cipher 0x%04x", t.cipher)
	if cn := cipherNames[t.cipher]; cn != "" {
		s += " name " + cn
	}
	s += " proto " + tlsProtoVersion(t.tlsversion)
	if t.servername != "" {
		s += " server-name '" + t.servername + "'"
	}
	if t.peername != "" {
		s += " client-name '" + t.peername + "'"
	}
	if t.tlsverified {
		s += " client-name-verified"
	}
	return s + "\n"
}

func specRemote(t *smtpTransaction) string {
	rmsg := t.rip
	if rmsg == "" {
		rmsg = t.raddr.String()
	}
	return "remote " + rmsg + " to " + t.laddr.String() + " with helo '" + t.heloname + "'\n"
}

func specTail(t *smtpTransaction) string {
	return fmt.Sprintf("hash %s bytes %d\nbodyhash %s\nbody\n%s", t.hash, len(t.data), t.bodyhash, t.data)
}

// specMeta: the save file without its first line.
func specMeta(t *smtpTransaction) string {
	return specRemote(t) + dnsLine("remote-dns", t.rdns.verified) + dnsLine("remote-dns-nofwd", t.rdns.nofwd) + dnsLine("remote-dns-inconsist", t.rdns.inconsist) +
		specTLSLine(t) + "from <" + t.from + ">\n" + toLines(t.rcptto, 0) + specTail(t)
}

func specIDLine(prefix string, t *smtpTransaction) string {
	return "id " + prefix + " " + t.raddr.String() + " " + t.when.Format(TimeNZ) + "\n"
}

func transOK(t *smtpTransaction) bool {
	return t != nil && t.rdns != nil && t.raddr != nil && t.laddr != nil
}

// logTo: the recipients from i on in the log line.
func logTo(l []string, i int) string {
	if i < 0 || i >= len(l) {
		return ""
	}
	return " <" + l[i] + ">" + logTo(l, i+1)
}

func specLogTail(t *smtpTransaction) string {
	s := fmt.Sprintf(": message %d bytes hash %s body %s | local %v helo '%s'", len(t.data), t.hash, t.bodyhash, t.laddr, t.heloname)
	if t.tlson {
		s += fmt.Sprintf(" tls:cipher 0x%04x tls:proto 0x%04x", t.cipher, t.tlsversion)
	}
	return s + "\n"
}

func specLogLine(prefix string, t *smtpTransaction) string {
	return t.when.Format(TimeNZ) + " [" + prefix + "] from " + t.raddr.String() + " / <" + t.from + "> to" + logTo(t.rcptto, 0) + specLogTail(t)
}

// specID: the name of the save file.
func specID(kind string, prefix string, t *smtpTransaction) string {
	if t.savedir == "" || kind == "msg" {
		return t.hash
	}
	if kind == "full" {
		return specHash(specMeta(t))
	}
	return specHash(specIDLine(prefix, t) + specMeta(t))
}
