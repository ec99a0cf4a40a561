From 021e6ef0582ddaf3f4cc2eaa9791206b67eb22d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 01/12] fix: do not panic on empty host names and empty
 patterns

A bare EHLO (with -nostdrules) made matchHost index an empty host name;
an empty quoted pattern did the same in matchHost and getMatchList.
---
 rules.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rules.go b/rules.go
index e3f9f72..6fe4886 100644
--- a/rules.go
+++ b/rules.go
@@ -132,7 +132,7 @@ func newContext(trans *smtpTransaction, rules []*Rule) *Context {
 func (c *Context) getMatchList(a string) []string {
 	var fname string
 	switch {
-	case a[0] == '/' || strings.HasPrefix(a, "./"):
+	case strings.HasPrefix(a, "/") || strings.HasPrefix(a, "./"):
 		fname = a
 	case strings.HasPrefix(a, "file:"):
 		fname = a[len("file:"):]
@@ -349,7 +349,11 @@ func matchAddress(addr string, pat string) bool {
 // This stripping is suppressed if the pattern ends in a '.' itself.
 func matchHost(host string, pat string) bool {
 	host = strings.ToLower(host)
-	if host[len(host)-1] == '.' && pat[len(pat)-1] != '.' {
+	// An empty hostname (eg from a bare EHLO) matches nothing.
+	if host == "" {
+		return false
+	}
+	if strings.HasSuffix(host, ".") && !strings.HasSuffix(pat, ".") {
 		host = host[:len(host)-1]
 	}
 	if host == pat || "."+host == pat {
-- 
2.43.0


From 4415ddb9348321cbea4ead86cb6ae08560419b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 02/12] fix: do not crash on a rule note when there is no SMTP
 log

---
 sinksmtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index c5a7c29..680a165 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -787,7 +787,7 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
 	if note := c.withprops["note"]; note != "" {
-		c.trans.log.Write([]byte(fmt.Sprintf("! rule note: %s\n", note)))
+		writeLog(c.trans.log, "! rule note: %s\n", note)
 	}
 	// Disable TLS if desired, or just disable asking for client certs.
 	switch c.withprops["tls-opt"] {
-- 
2.43.0


From b8d09b83a8308d43a25528b8138f01b21f90aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 03/12] fix: do not drop the last line of list and connection
 files if it has no newline

---
 conncfg.go  | 5 +++--
 sinksmtp.go | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/conncfg.go b/conncfg.go
index 84bbecb..18987d5 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -60,10 +60,11 @@ func readConnFile(rdr *bufio.Reader) (*destMap, error) {
 		var host, cert, key string
 
 		line, err := rdr.ReadString('\n')
-		if err == io.EOF {
+		// A last line without a newline comes with io.EOF.
+		if err == io.EOF && line == "" {
 			break
 		}
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return nil, err
 		}
 		lnum++
diff --git a/sinksmtp.go b/sinksmtp.go
index 680a165..7a625c5 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -89,7 +89,8 @@ func readList(rdr *bufio.Reader) ([]string, error) {
 	var a []string
 	for {
 		line, err := rdr.ReadString('\n')
-		if err != nil {
+		// A last line without a newline comes with io.EOF.
+		if err != nil && !(err == io.EOF && line != "") {
 			if err == io.EOF {
 				return a, nil
 			}
-- 
2.43.0


From 89be9b983de3d90c500c612a8ffbe28ecb647d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 04/12] fix: do not accept a message whose save file could not
 be written

The error from writing the file was overwritten by a successful Close.
---
 sinksmtp.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 7a625c5..5b4a7d3 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -669,9 +669,18 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 			warnf("error writing message file: %s\n", err)
 		}
 		_ = fp.Sync()
-		err = fp.Close()
+		cerr := fp.Close()
+		if cerr != nil {
+			warnf("error closing message file: %s\n", cerr)
+			if err == nil {
+				err = cerr
+			}
+		}
+		// Do not leave an incomplete message file behind; it would
+		// make a later delivery attempt think that the message is
+		// already saved.
 		if err != nil {
-			warnf("error closing message file: %s\n", err)
+			os.Remove(tgt)
 		}
 	} else if !os.IsExist(err) {
 		warnf("error writing message file: %v\n", err)
-- 
2.43.0


From 9be25c5a66cf8485032c9ce2e61418c895ad8948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 05/12] fix: make-yakker lasts for the session

It was only looked up in the options of the very last decision, so any
command after the one that matched lost it.
---
 sinksmtp.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 5b4a7d3..f8aec0c 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -431,6 +431,10 @@ type smtpTransaction struct {
 	lastamsg string
 
 	lastresgood bool // last result from decider()
+
+	// set once a matching rule has a make-yakker option; sticky for
+	// the session.
+	makeyakker bool
 }
 
 // returns overall hash and body-of-message hash. The latter may not
@@ -793,6 +797,10 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	if sd := c.withprops["savedir"]; sd != "" {
 		c.trans.savedir = sd
 	}
+	// make-yakker is about the whole session, not about this command.
+	if _, ok := c.withprops["make-yakker"]; ok {
+		c.trans.makeyakker = true
+	}
 	// rule notes are deliberately logged every time they hit.
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
@@ -1197,9 +1205,8 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 	// Once people are yakkers we don't count their continued failure
 	// to do anything against them.
 	// And we have to have good rules to start with because duh.
-	_, forceyakker := c.withprops["make-yakker"]
 	switch {
-	case forceyakker:
+	case trans.makeyakker:
 		// It's a lot simpler if forced yakking takes priority
 		// over everything else.
 		cnt = yakkers.Set(trans.rip, yakTimeout, yakCount)
-- 
2.43.0


From 717af116078cb5a35c94e2e8596d1e26fe033d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 06/12] fix: do not let connections overwrite each other's
 rules

append(baserules, ...) wrote into spare capacity of the shared base rules.
---
 sinksmtp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index f8aec0c..9e6b5f8 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -169,7 +169,9 @@ func setupRules(baserules []*Rule) ([]*Rule, bool) {
 	var rfile string
 	var err error
 
-	rules = baserules
+	// baserules is shared between all connections, so appending to it
+	// must never write into its backing array.
+	rules = baserules[:len(baserules):len(baserules)]
 	for _, rfile = range rulefiles {
 		rules, err = accumRules(rules, rfile)
 		if err != nil {
-- 
2.43.0


From 488e0a5bf2cbccd0385b1573ce246cedfe86365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 07/12] fix: an address that is not an IP address matches no IP
 or CIDR

nil.Equal(nil) is true, so for eg a zoned IPv6 address every CIDR entry
(or invalid entry) matched.
---
 conncfg.go | 3 +++
 rules.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/conncfg.go b/conncfg.go
index 18987d5..870aa28 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -37,6 +37,9 @@ func (d *destMap) find(nc net.Conn) *perDest {
 		if de.local == "*" || de.local == las {
 			return de
 		}
+		if ip == nil {
+			continue
+		}
 		if ip.Equal(net.ParseIP(de.local)) {
 			return de
 		}
diff --git a/rules.go b/rules.go
index 6fe4886..15a4ecc 100644
--- a/rules.go
+++ b/rules.go
@@ -379,6 +379,9 @@ func matchIp(rip string, cidr string) bool {
 	// (yes people do this sometimes). ParseIP() has the side effect
 	// of canonicalizing all of that for us.
 	ip := net.ParseIP(rip)
+	if ip == nil {
+		return false
+	}
 	ip2 := net.ParseIP(cidr)
 	if ip.Equal(ip2) {
 		return true
-- 
2.43.0


From 4b5704b825729e47f167e58cad0b9207cce60edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 08/12] fix: 'bad' addresses are noat, quoted, unqualified or
 garbage, as documented

---
 rnodes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rnodes.go b/rnodes.go
index bd0c865..3d893f7 100644
--- a/rnodes.go
+++ b/rnodes.go
@@ -97,7 +97,7 @@ const (
 	oFrom
 
 	// merged bitmaps
-	oBad = oUnqualified | oRoute | oNoat | oGarbage
+	oBad = oUnqualified | oQuoted | oNoat | oGarbage
 	oIp  = oBareip | oProperip
 	oAny = oHost | oEhlo | oFrom
 )
-- 
2.43.0


From b1782ed6c78cc0ce949db3a639dec7fdbc8afc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 09/12] fix: compare IP addresses in EHLO names as addresses,
 not as text

---
 rules.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/rules.go b/rules.go
index 15a4ecc..f2842e1 100644
--- a/rules.go
+++ b/rules.go
@@ -178,7 +178,7 @@ func dnsGetter(c *Context) (o Option) {
 }
 
 func heloGetter(c *Context) (o Option) {
-	var hip string
+	var hip net.IP
 	if c.helocmd == smtpd.HELO {
 		o |= oHelo
 	} else {
@@ -199,24 +199,26 @@ func heloGetter(c *Context) (o Option) {
 	if idx1 == -1 && idx2 == -1 {
 		o |= oNodots
 	}
-	if net.ParseIP(hn) != nil {
+	if ip := net.ParseIP(hn); ip != nil {
 		o |= oBareip
-		hip = hn
+		hip = ip
 	}
 
 	if len(hn) > 2 && hn[0] == '[' && hn[len(hn)-1] == ']' {
 		t := hn[1 : len(hn)-1]
-		if net.ParseIP(t) != nil {
-			hip = t
+		if ip := net.ParseIP(t); ip != nil {
+			hip = ip
 			o |= oProperip
 		}
 	}
 	switch {
-	case hip == c.trans.rip:
+	case hip == nil:
+		// not an IP address at all.
+	case hip.Equal(net.ParseIP(c.trans.rip)):
 		o |= oRemip
-	case hip == c.trans.lip:
+	case hip.Equal(net.ParseIP(c.trans.lip)):
 		o |= oMyip
-	case hip != "":
+	default:
 		o |= oOtherip
 	}
 	return
-- 
2.43.0


From b87a0ff6277f3f87c304f8e89cbdff48e9c2c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 10/12] fix: no pattern matches an address that starts or ends
 with '@'

The exact-match test came before the check for these.
---
 rules.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rules.go b/rules.go
index f2842e1..c91dd1d 100644
--- a/rules.go
+++ b/rules.go
@@ -311,13 +311,17 @@ func (s *sDotIter) Next() string {
 // the @ at the end.
 func matchAddress(addr string, pat string) bool {
 	addr = strings.ToLower(addr)
-	if (addr == "" && pat == "<>") || addr == pat {
-		return true
+	if addr == "" {
+		return pat == "<>"
 	}
-	idx := strings.IndexByte(addr, '@')
-	if addr == "" || idx == 0 || idx == len(addr)-1 {
+	// no pattern matches addresses that start or end with '@'.
+	if strings.HasPrefix(addr, "@") || strings.HasSuffix(addr, "@") {
 		return false
 	}
+	if addr == pat {
+		return true
+	}
+	idx := strings.IndexByte(addr, '@')
 	// local name only technically matches 'local@' patterns.
 	if idx == -1 {
 		return (addr + "@") == pat
-- 
2.43.0


From c76845c38a39ea1090bab09af71562f00d9ecc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 11/12] fix: do not crash on an SBL domain hit for a client
 without an IPv4 address

---
 sinksmtp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sinksmtp.go b/sinksmtp.go
index 9e6b5f8..50c1742 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -701,6 +701,10 @@ func getSBLHits(t *smtpTransaction) []string {
 	var sbls []string
 	// since we know this hit, we can omit a lot of checks.
 	s := strings.Split(t.rip, ".")
+	// ... except that a 'dbl' hit can happen for any client address.
+	if len(s) != 4 {
+		return sbls
+	}
 	ln := fmt.Sprintf("%s.%s.%s.%s.sbl.spamhaus.org.", s[3], s[2], s[1], s[0])
 	txts, err := net.LookupTXT(ln)
 	if err != nil {
-- 
2.43.0


From 60d3801c768469096e4028f1cdcd4f121e8cb48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 12/12] fix: remove only a trailing dot from DNS names in dbl
 checks

---
 rnodes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rnodes.go b/rnodes.go
index 3d893f7..0d29d63 100644
--- a/rnodes.go
+++ b/rnodes.go
@@ -453,13 +453,13 @@ func (d *DblNode) Eval(c *Context) (r Result) {
 	if (d.src & oHost) == oHost {
 		// DNS names have a trailing '.', which we must remove.
 		for _, s := range c.trans.rdns.verified {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 		for _, s := range c.trans.rdns.nofwd {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 		for _, s := range c.trans.rdns.inconsist {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 	}
 	if (d.src&oFrom) == oFrom && c.from != "" {
-- 
2.43.0

