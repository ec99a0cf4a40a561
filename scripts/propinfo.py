"""What the check driver needs to know about each property."""
import os
RULES = ['h_core_test.go', 'h_model_test.go', 'h_rules_test.go']
PROC = RULES + ['h_proc_test.go']

TRUSTED = [
    'the verifier itself (/verif/tool: Go SSA from golang.org/x/tools, symbolic evaluation, SMT encoding)',
    'cvc5 1.1.2 and z3 (z3-new)',
    'library models of /verif/spec/models.go and the built-in string, map and slice models of the verifier',
]
ASSUME = [
    'integers are mathematical (no overflow)',
    'strings are byte sequences; strings.ToLower and other library functions without a model are uninterpreted functions of their arguments',
    'DNS answers and file contents do not change while one function call runs',
    'sequential execution: no other goroutine writes the objects a function works on',
    'termination of recursion is not proved',
]

def P(what, level='exploration', files=PROC, bounded='', **kw):
    d = dict(what=what, level=level, files=files, bounded=bounded)
    d.update(kw)
    return d

INFO = {
 'C01': P('address and pattern of a from/to condition', 'proof', RULES),
 'C02': P('host name and pattern', 'proof', RULES),
 'C03': P('client IP and ip condition', 'proof', RULES),
 'C04': P('address with attributes', 'proof', RULES),
 'C05': P('greeting or reverse DNS result', 'proof', RULES),
 'C06': P('rule condition tree evaluated', 'proof', RULES),
 'C07': P('decision with at least one eligible rule', 'proof', RULES),
 'C08': P('null sender decisions', 'proof', RULES),
 'C09': P('decision with options', 'proof', RULES),
 'C10': P('rule files loaded for a connection', 'proof'),
 'C11': P('rule parsed', 'proof', RULES),
 'C12': P('rule text parsed', 'proof', RULES),
 'C13': P('rule text lexed', 'proof', RULES),
 'C14': P('message handled, with faults', 'proof'),
 'C15': P('save file content and name', 'proof'),
 'C16': P('SMTP commands replied to', 'proof'),
 'C17': P('envelope of a conversation', 'proof'),
 'C18': P('do-nothing bookkeeping', 'proof'),
 'C19': P('TLS offer', 'proof'),
 'C20': P('reverse lookups', 'proof'),
 'C21': P('domains looked up', 'proof', PROC),
 'C22': P('blocklist condition evaluated', 'proof', RULES),
 'C23': P('connection file', 'proof'),
 'C24': P('pattern file', 'proof'),
 'C25': P('filter options', 'proof'),
 'C26': P('everything', 'proof', bounded='the String methods (used by tests and debugging output only), the endless loops of listener and warnbackend, and the smtpd package are not under contract'),
}

def known(prop):
    """Recorded, unrepaired findings."""
    f = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known-findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('finding: property=%s ' % prop): out.append(l[len('finding: '):].strip())
    return out
