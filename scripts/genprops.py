#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that it is readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

NOBUILD = "The test files that touch this code do not even build here (the SMTP library is missing), and they sample a handful of hand-picked strings."

prop("C01", "Address patterns match exactly the documented addresses",
 "For every envelope address and every address pattern, a 'from' or 'to' condition holds exactly when (ignoring case) the address is empty and the pattern is '<>', or the address neither starts nor ends with '@' and the pattern is the whole address, its local part followed by '@' (also for an address with no domain), '@' plus its domain, '@.' plus its domain or any parent domain of it, or the bare '@' when it has a domain. No other combination matches, in particular not a domain that merely ends in the same letters, and evaluation always terminates. 'from' looks at the current sender and 'to' at the recipient being judged, against every pattern of the list.",
 ["inputs"], "every address string, every pattern string, every pattern list",
 NOBUILD + " TestAddrMatches tries 19 pairs; the claim is about all pairs of strings.",
 ["rules.go","rnodes.go"], [("matchAddress","rules.go"),("sDotIter.Next","rules.go"),("MatchN.Eval","rnodes.go"),("newFromNode/newToNode","rnodes.go"),("getMatchList","rules.go")])

prop("C02", "Hostname patterns match exactly the documented host names",
 "For every host name and pattern, a 'helo', 'ehlo' or 'host' condition holds exactly when (ignoring case, and ignoring the name's final dot unless the pattern ends in a dot) the name equals the pattern, or the pattern starts with '.' and the name is the rest of the pattern or a subdomain of it. 'helo' looks at the greeting name, 'host' at every verified reverse-DNS name and no other name, and 'source PAT' holds exactly when 'host PAT', 'helo PAT' or 'from @PAT' would. An empty name matches nothing and every evaluation terminates without crashing.",
 ["inputs"], "every host name (including the empty one a bare EHLO gives), every pattern, every list of verified names",
 NOBUILD + " TestHostMatches tries 10 pairs and never the empty name.",
 ["rules.go","rnodes.go"], [("matchHost","rules.go"),("sDotIter.Next","rules.go"),("newHeloNode/newHostNode/newSourceNode","rnodes.go"),("matchFromHost","rnodes.go")])

prop("C03", "IP conditions match exactly the listed addresses and netblocks",
 "An 'ip' condition holds exactly when the client's address is a valid IP address and is equal to a listed IP address or contained in a listed CIDR netblock. A client address or list entry that is not a valid IP address or netblock never matches anything, and the textual spelling of an address does not matter.",
 ["inputs"], "every client address text (including zoned IPv6 and the empty string) and every list entry",
 NOBUILD + " The tests use one valid IPv4 client address only.",
 ["rules.go","rnodes.go"], [("matchIp","rules.go"),("newIPNode","rnodes.go")])

prop("C04", "Address attributes classify every address as documented",
 "For every sender or recipient address, from-has/to-has see exactly the documented attributes: noat, unqualified, route, quoted and garbage follow from the address text alone, and exactly one of resolves, unknown or baddom is reported from DNS for, and only for, a non-empty address that is none of noat, unqualified, route and garbage. 'bad' stands for noat, quoted, unqualified or garbage, a condition with several attributes holds when at least one of them does, and the empty address has no attributes.",
 ["inputs"], "every address string and every DNS answer",
 NOBUILD + " TestAddrOpts samples 14 addresses with DNS stubbed out.",
 ["rules.go","rnodes.go","rparse.go"], [("getAddrOpts","rules.go"),("OptionN.Eval","rnodes.go"),("addrMap/oBad","rparse.go, rnodes.go"),("validDomain cache","rules.go")])

prop("C05", "HELO and reverse-DNS attributes classify every client as documented",
 "For every greeting and client, helo-has sees exactly the documented attributes: helo or ehlo by the verb, none, bogus and nodots by the name, bareip or properip when the name is an IP address bare or in brackets, and then exactly one of the client's own IP, this server's IP or another IP. For every reverse-DNS result, 'dns' sees exists or nodns by whether there is a verified name, noforward and inconsistent by whether there are such names, and good exactly when only verified names exist.",
 ["inputs"], "every greeting verb and name, every pair of endpoint addresses, every reverse-DNS result",
 NOBUILD + " TestHostOpts samples 9 names and TestDnsOpts 6 combinations.",
 ["rules.go"], [("heloGetter","rules.go"),("dnsGetter","rules.go"),("OptionN.Eval","rnodes.go")])

prop("C06", "A rule's conditions combine as written; missing pattern files disable it",
 "A parsed rule condition evaluates as plain logic over its conditions: a sequence needs all of them, 'or' needs either side, 'not' negates, 'all' always holds and 'tls on|off' compares with the connection. If evaluation, which goes left to right and stops as soon as the outcome is known, consults a pattern file that is empty, missing or unreadable, the whole rule does not match, even under 'not', and none of its options take effect.",
 ["inputs","configurations"], "every condition tree of any depth and width, every environment of files and DNS answers",
 NOBUILD + " The tests evaluate about 40 fixed rules in one context.",
 ["rnodes.go","rules.go"], [("AndL/OrN/NotN/AllN/TlsN/matchSource Eval","rnodes.go"),("Rule.check","rnodes.go"),("rulemiss","rules.go"),("getMatchList","rules.go")])

prop("C07", "The first eligible matching rule decides each SMTP command",
 "At each SMTP phase the rules are considered in order and the first eligible matching rule that is not 'set-with' decides; with none, there is no result. A rule is eligible when the phase has reached what its conditions need and, if it names a phase, only in exactly that phase. After RCPT TO, a rule about recipients is judged against each accepted recipient in turn and matches as soon as one does.",
 ["inputs","histories","configurations"], "every rule list, phase, command argument and list of accepted recipients",
 NOBUILD + " rules_test.go says outright that it does not attempt to test the decision function.",
 ["rules.go","rnodes.go"], [("Decide","rules.go"),("ruleForEachRcpt","rules.go"),("Rule.check","rnodes.go")],
 [("requires/deferto","phase a rule needs / is pinned to","rnodes.go")])

prop("C08", "MAIL FROM:<> is never refused by rules; the refusal moves to RCPT TO",
 "When the rules would reject or stall a null sender, MAIL FROM:<> itself is accepted, and from then on every recipient and later command of that transaction gets exactly the deferred result with its options, whatever the rules say. A new MAIL FROM or HELO/EHLO clears the deferred result; a non-null sender is never deferred.",
 ["inputs","histories"], "every rule set and every sequence of HELO, MAIL FROM, RCPT TO, DATA and message steps",
 "No test drives the decision function at all, let alone over several steps.",
 ["rules.go"], [("Decide: defresult/defprops","rules.go")])

prop("C09", "With-options come from matching rules only, the last match winning",
 "After each decision the active options are exactly those of the matching rules: every eligible matching set-with rule contributes in order, a later match replacing an earlier value of the same option, and the deciding rule's own options come last. Within one rule only the first clause that matches contributes, and options never leak from one decision into the next.",
 ["inputs","histories"], "every rule list with every option map, every clause list",
 "TestWithSetting checks one two-rule example, and does not build here.",
 ["rnodes.go","rules.go"], [("Rule.check","rnodes.go"),("Decide: withprops","rules.go")])

prop("C10", "Bad rule files stall everything; good ones load in order, per connection",
 "When any rules file or file it includes cannot be opened, read or parsed, the connection gets only a rule that stalls every command, never a partial rule set, and this is reported. Otherwise its rules are the built-in ones followed by the rules of each file in order with includes expanded in place. Loading rules for one connection never changes the rules another connection is using.",
 ["inputs","configurations","schedules"], "every list of rules files, every load outcome, any number of concurrent connections",
 "Nothing tests rule loading; sharing between connections needs two overlapping connections to show.",
 ["sinksmtp.go","rparse.go"], [("setupRules/accumRules/loadRules","sinksmtp.go"),("pInclude/pFile","rparse.go")])

prop("C11", "A parsed rule knows the earliest phase it can be judged in",
 "Parsing a rule yields as its required phase the latest phase needed by any condition anywhere in it (HELO for greeting conditions, MAIL FROM for sender, source and TLS conditions, RCPT TO for recipient conditions, by its sources for a domain blocklist, none otherwise). An explicit phase is recorded as given, and a rule whose explicit phase is earlier than its required phase is an error.",
 ["inputs"], "every rule text",
 "TestNotParse has one such line and does not build here.",
 ["rparse.go"], [("pTerm/minReq","rparse.go"),("pPhase/pRule","rparse.go")])

prop("C12", "Rule text parses to the documented structure, or is an error",
 "Every rule text either parses into rules with the documented meaning - 'or' binds tighter than sequence, 'not' applies to the next condition, parentheses group, ';' separates clauses each with its own options, every condition and option keyword means what the manual says - or is reported as an error; nothing is silently dropped. Parsing never crashes, and a set-with clause without options, an unknown or repeated option, an empty group and a dangling operator are errors.",
 ["inputs"], "every sequence of tokens",
 "TestParse and TestNotParse sample about 90 lines, check no structure, and do not build here.",
 ["rparse.go","rnodes.go"], [("pTerm/pNot/pParen/pOrl/pAndl","rparse.go"),("pWClause/pWith/pRClause/pRule","rparse.go"),("option and phase tables","rparse.go")])

prop("C13", "Rule text is split into the documented tokens, losing nothing",
 "Every rules text is split into words at blanks, newlines, parentheses, commas and semicolons, with every word, its kind (keyword, file name or plain value) and its position exactly as in the text; comment lines, blank lines and backslash-newline continuations vanish and nothing else does. A quoted string is one plain value with only \\\" and \\\\ unescaped, and an unterminated quote, a comma before white space and an empty file name are errors. Splitting never crashes and always ends with one end-of-file or error token.",
 ["inputs"], "every input text",
 "TestLex has 22 inputs and ignores positions.",
 ["rlex.go"], [("lexLineStart/lexLineRunning/lexSpecial/lexWord/lexQuote/lexComment","rlex.go"),("next/backup/peek/emit","rlex.go"),("keywords/specials","rlex.go")])

prop("C14", "A message is accepted only after it was logged and completely saved",
 "When a message has been received it is logged and, if a save directory applies, saved before any reply; it gets a success reply only if the complete save file was written without error or a file of that name already existed, and only if the rules do not refuse it. Any error while saving leads to a temporary failure whatever the rules say, and an existing file is never overwritten.",
 ["inputs","fault_sequences","histories"], "every message, rule outcome, and every failure of open, write or close",
 "Nothing tests message handling or I/O errors.",
 ["sinksmtp.go"], [("handleMessage","sinksmtp.go"),("process: GOTDATA","sinksmtp.go"),("logMessage","sinksmtp.go")])

prop("C15", "Save files hold the exact message and metadata under the documented name",
 "A save file consists of the metadata lines (id, remote, reverse DNS, tls only under TLS, from, one 'to' per accepted recipient in order, hash and size, body hash) followed by a 'body' line and then the message bytes unchanged. Its name is the SHA-1 of the message alone for 'msg', of everything but the id line for 'full', and of the whole file for 'all'.",
 ["inputs"], "every message content and every transaction",
 "Nothing tests saving.",
 ["sinksmtp.go"], [("msgDetails","sinksmtp.go"),("handleMessage","sinksmtp.go"),("writeDNSList","sinksmtp.go"),("getHashes/genHash","sinksmtp.go")])

prop("C16", "Each SMTP command gets the one reply the rules decided",
 "Every HELO, MAIL FROM, RCPT TO, DATA and received message gets exactly one outcome: a permanent failure when the rules reject, a temporary failure when they stall, and success otherwise, with the rule's message option as its text and the message ID added where one exists (except that a failed save is a temporary failure, as is the MAIL FROM of a client dropped for starting over too often). At connection time a reject drops the connection with no reply and anything else lets it go on. A savedir option stays in force for the connection, and tls-opt 'off' turns TLS off while 'no-client' only stops asking for client certificates.",
 ["inputs","histories","configurations"], "every decision, phase, option set and log configuration",
 "Nothing tests the reply logic; the program does not build here.",
 ["sinksmtp.go"], [("decider","sinksmtp.go"),("doAccept","sinksmtp.go"),("process main loop","sinksmtp.go")])

prop("C17", "The recorded envelope is exactly what was accepted",
 "At every moment of a session the recorded greeting name, sender and recipients are those of the last accepted greeting, the last accepted MAIL FROM since it, and the recipients accepted since that MAIL FROM, in order; refused commands leave no trace. What is logged, saved and judged for a message is this envelope and the message just received.",
 ["histories"], "every sequence of commands and decisions in a session",
 "Nothing drives a session.",
 ["sinksmtp.go"], [("process main loop","sinksmtp.go"),("smtpTransaction","sinksmtp.go")])

prop("C18", "Only repeat do-nothing clients are stalled, and only for the time window",
 "A connection is stalled as a do-nothing client only if that feature is on and its IP address has reached the configured count within the time window; a session counts only when it never reached the configured phase, had good rules and no TLS error, and reaching the phase clears the count. A session not dropped at connection time in which a decision comes with make-yakker makes its client one whatever else happens in it. The table of addresses counts exactly, forgets expired entries, and is only touched under its lock.",
 ["histories","schedules"], "every sequence of sessions, times and interleavings of table operations",
 "Nothing tests the tables or the session bookkeeping.",
 ["sinksmtp.go"], [("ipMap.Add/Set/Del/Lookup","sinksmtp.go"),("process: yakker logic","sinksmtp.go"),("decider","sinksmtp.go")])

prop("C19", "TLS is offered exactly when configured and not known to fail",
 "TLS is offered to a client exactly when certificates apply to the connection and the client's IP does not have two or more TLS failures within the last 72 hours. A client certificate is asked for only while there are no recorded failures, and every TLS error is recorded against the client's IP.",
 ["histories","configurations"], "every configuration and every history of TLS failures",
 "Nothing tests TLS set-up.",
 ["sinksmtp.go"], [("process: TLS set-up","sinksmtp.go"),("ipMap","sinksmtp.go")])

prop("C20", "Reverse DNS names are trusted only after a matching forward lookup",
 "For every client address and every DNS behaviour, each name that reverse DNS gives ends up in exactly one of three classes: verified if its forward lookup includes the client's address, no-forward if the forward lookup fails, inconsistent otherwise. Names appear in sorted order, none is lost or invented, and a failed reverse lookup gives no names.",
 ["inputs","fault_sequences"], "every PTR answer and every forward answer",
 "Nothing tests this; it needs DNS.",
 ["rdns.go"], [("LookupAddrVerified","rdns.go")])

prop("C21", "Mail-domain validity follows MX and address records as documented",
 "A domain is good exactly when no MX is '.' or 'localhost.' and at least one MX host (or, with no MX, the domain itself) has addresses that are all global unicast and outside private space; a temporary lookup failure makes it unknown unless something good is found, and everything else is bad. A bogus MX makes it bad whatever the other entries are, and one bad address disqualifies a host.",
 ["inputs","fault_sequences"], "every MX set, address set and failure",
 "TestBasicResults needs the real DNS and five fixed domains.",
 ["mxresolve.go"], [("ValidDomain","mxresolve.go"),("checkIP","mxresolve.go"),("isTemporary","mxresolve.go")])

prop("C22", "DNS blocklist conditions query exactly the documented names",
 "A dnsbl condition holds exactly when the client is IPv4 and its reversed address under the list's domain resolves; a dbl condition holds exactly when at least one of the names from its selected sources (greeting name; all reverse-DNS names whatever their class, without final dot; domain of a well-formed sender) under the list's domain resolves. A failed lookup counts as not listed, and each list that hits is reported once.",
 ["inputs","fault_sequences"], "every client, source selection and DNS behaviour",
 "The tests preload the lookup cache with six names and do not build here.",
 ["rnodes.go","rules.go"], [("DNSblN.Eval","rnodes.go"),("DblNode.Eval","rnodes.go"),("getDnsblRes/addDnsblHit","rules.go")])

prop("C23", "The first matching connection-parameter line configures the connection",
 "The connection-parameter file yields one entry per non-blank, non-comment line in order, with its host name and certificates, or an error for a malformed line. A connection uses the first entry whose local part is '*', its local IP:port, its local IP or a netblock containing it; a matching entry's certificates replace the command line's even when it has none, its host name only when it has one, and with no match or a bad file the command line applies.",
 ["inputs","configurations"], "every file content and every local address",
 "Nothing tests it.",
 ["conncfg.go","sinksmtp.go"], [("readConnFile","conncfg.go"),("destMap.find","conncfg.go"),("process: connfile","sinksmtp.go")])

prop("C24", "Pattern files give every listed pattern and only those",
 "Reading an address, host or IP list file gives, in order and lower-cased, every line that is neither blank nor a comment, white space trimmed, including a last line without a newline. A missing or unreadable file, or a read error part way, gives an empty list and not a partial one, and one connection always sees one version of a file.",
 ["inputs","fault_sequences"], "every file content and every read failure",
 "TestLoader reads one six-line list that ends in a newline, and does not build here.",
 ["sinksmtp.go","rules.go"], [("readList/loadList","sinksmtp.go"),("getMatchList","rules.go")])

prop("C25", "Command-line filters become the documented rules, ahead of rule files",
 "The filter options translate to exactly the documented rules in the documented order: the three standard rules unless disabled, then the -M, -fromreject, -toaccept and -heloreject rules for those given, and nothing else. These come before all rules from rule files.",
 ["configurations"], "every combination and value of the options",
 "Nothing tests the translation.",
 ["sinksmtp.go"], [("buildRules","sinksmtp.go"),("setupRules","sinksmtp.go")])

prop("C26", "No client input, DNS answer, file or rule set can crash the server",
 "Whatever a client sends, DNS answers, files contain or rules say, judging commands, parsing rules, replying, logging and saving never cause a run-time panic: no index or slice out of range, no use of a missing logger, TLS configuration, map or rule, and no internal 'impossible' case.",
 ["inputs","configurations","fault_sequences"], "every input to the functions that handle client commands, DNS results, list files and rules",
 "A panic in one connection ends the whole server; tests only show the absence of panics on their few inputs.",
 ["rules.go","rnodes.go","rlex.go","rparse.go","sinksmtp.go","conncfg.go","rdns.go","mxresolve.go"],
 [("bounds and nil safety of every function under contract","all files")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
