package main

import (
	"crypto/tls"
	"strings"
	"net"
	"time"
)

// Command line options: each has one value, given its default.

func uFlagStr(name string, def string) string
func uFlagBool(name string, def bool) bool
func uFlagInt(name string, def int) int
func uFlagDur(name string, def time.Duration) time.Duration

//@ model flag.StringVar
func modelStringVar(p *string, name string, value string, usage string) { *p = uFlagStr(name, value) }

//@ model flag.BoolVar
func modelBoolVar(p *bool, name string, value bool, usage string) { *p = uFlagBool(name, value) }

//@ model flag.IntVar
func modelIntVar(p *int, name string, value int, usage string) { *p = uFlagInt(name, value) }

//@ model flag.DurationVar
func modelDurationVar(p *time.Duration, name string, value time.Duration, usage string) {
	*p = uFlagDur(name, value)
}

func anyConn() net.Conn

// connections come with both their addresses
//
//@ model recv net.Conn
func modelRecvConn(c chan net.Conn) net.Conn {
	nc := anyConn()
	assume(nc != nil && nc.RemoteAddr() != nil && nc.LocalAddr() != nil)
	return nc
}

// optText is the rule text that the options stand for.
func optText() string {
	return textOf(!uFlagBool("nostdrules", false), uFlagBool("M", false), uFlagStr("fromreject", ""), uFlagStr("toaccept", ""), uFlagStr("heloreject", ""))
}

func optPhase() string {
	m := uFlagStr("minphase", "helo")
	if m == "ehlo" {
		return "helo"
	}
	return m
}

// specFiles: the rule files named by -r.
func specFiles(r string) []string {
	if r == "" {
		return nil
	}
	return strings.Split(r, ",")
}

// optCerts: the certificates named by -c and -k.
func optCerts() []tls.Certificate {
	c, k := uFlagStr("c", ""), uFlagStr("k", "")
	if c == "" || k == "" {
		return nil
	}
	return certsFrom(strings.Split(c, ","), strings.Split(k, ","), 0)
}
