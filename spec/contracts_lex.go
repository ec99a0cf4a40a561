package main

//@ func skipWhitespace(l *lexer)
//@ props C13 C26
//@ requires l != nil && 0 <= l.pos && l.pos <= len(l.input) && l.start == l.pos
//@ pre in string = l.input
//@ pre p0 int = l.pos
//@ ensures l.start == l.pos && p0 <= l.pos && l.pos <= len(in)
//@ ensures l.pos == len(in) || !isBlank(in[l.pos])
//@ ensures lexSkip(in, mStart, l.pos) == lexSkip(in, mStart, p0) && lexSkip(in, mRun, l.pos) == lexSkip(in, mRun, p0)
//@ modifies lexer.pos@l, lexer.start@l, lexer.width@l
//@ inv () p0 <= l.pos && l.pos <= len(in)
//@ inv () lexSkip(in, mStart, l.pos) == lexSkip(in, mStart, p0) && lexSkip(in, mRun, l.pos) == lexSkip(in, mRun, p0)
//@ inv () p0 <= l.start && l.start <= l.pos

//@ func lexLineStart(l *lexer) (f stateFn)
//@ props C13 C26
//@ requires lexOK(l, lexLineStart)
//@ pre left int = lexLeft(lexLineStart, l.input, l.pos)
//@ ensures lexOK(l, f)
//@ ensures[C13] lexLeft(f, l.input, l.pos) < left
//@ modifies lexer.pos@l, lexer.start@l, lexer.width@l, ghLex.begun@cast_ghLex(l), ghLex.next@cast_ghLex(l), ghLex.done@cast_ghLex(l)

//@ func lexLineRunning(l *lexer) (f stateFn)
//@ props C13 C26
//@ requires lexOK(l, lexLineRunning)
//@ pre left int = lexLeft(lexLineRunning, l.input, l.pos)
//@ ensures lexOK(l, f)
//@ ensures[C13] lexLeft(f, l.input, l.pos) < left
//@ modifies lexer.pos@l, lexer.start@l, lexer.width@l, ghLex.begun@cast_ghLex(l), ghLex.next@cast_ghLex(l), ghLex.done@cast_ghLex(l)

//@ func lexSpecial(l *lexer) (f stateFn)
//@ props C13 C26
//@ requires lexOK(l, lexSpecial)
//@ pre left int = lexLeft(lexSpecial, l.input, l.pos)
//@ ensures lexOK(l, f)
//@ ensures[C13] lexLeft(f, l.input, l.pos) < left
//@ modifies lexer.pos@l, lexer.start@l, lexer.width@l, ghLex.begun@cast_ghLex(l), ghLex.next@cast_ghLex(l), ghLex.done@cast_ghLex(l)

//@ func lexWord(l *lexer) (f stateFn)
//@ props C13 C26
//@ requires lexOK(l, lexWord)
//@ pre left int = lexLeft(lexWord, l.input, l.pos)
//@ ensures lexOK(l, f)
//@ ensures[C13] lexLeft(f, l.input, l.pos) < left
//@ modifies lexer.pos@l, lexer.start@l, lexer.width@l, ghLex.begun@cast_ghLex(l), ghLex.next@cast_ghLex(l), ghLex.done@cast_ghLex(l)

//@ func lexQuote(l *lexer) (f stateFn)
//@ props C13 C26
//@ requires lexOK(l, lexQuote)
//@ pre in string = l.input
//@ pre p0 int = l.pos
//@ unfold 1
//@ after strings.IndexAny (s string, chars string, idx int) lemQuoted(l.input, s, len(l.input)-len(s), foundLen(s, idx), 0)
//@ after strings.IndexAny (s string, chars string, idx int) lemSplit(l.input, l.pos, len(l.input)-len(s), len(l.input)-len(s)+idx)
//@ after strings.IndexAny (s string, chars string, idx int) lemSplit(l.input, l.pos, len(l.input)-len(s)+idx, len(l.input)-len(s)+idx+1)
//@ inv () l.start == p0 && l.input == in && p0 < l.pos && !cast_ghLex(l).done
//@ inv (?q int) l.pos <= q && q <= len(in)
//@ inv (?q int) quotedOK(in, q) == quotedOK(in, p0+1)
//@ inv (?q int) !quotedOK(in, q) || quotedEnd(in, q) == quotedEnd(in, p0+1)
//@ step (?parts []string) lemJoin(notNil(parts))
//@ inv (?q int, ?parts []string) !quotedOK(in, q) || quotedVal(in, p0+1) == joinAll(notNil(parts)) + in[l.pos:q] + quotedVal(in, q)
//@ pre left int = lexLeft(lexQuote, l.input, l.pos)
//@ ensures lexOK(l, f)
//@ ensures[C13] lexLeft(f, l.input, l.pos) < left
//@ modifies lexer.pos@l, lexer.start@l, lexer.width@l, ghLex.begun@cast_ghLex(l), ghLex.next@cast_ghLex(l), ghLex.done@cast_ghLex(l)

//@ func lexComment(l *lexer) (f stateFn)
//@ props C13 C26
//@ requires lexOK(l, lexComment)
//@ pre left int = lexLeft(lexComment, l.input, l.pos)
//@ ensures lexOK(l, f)
//@ ensures[C13] lexLeft(f, l.input, l.pos) < left
//@ modifies lexer.pos@l, lexer.start@l, lexer.width@l, ghLex.begun@cast_ghLex(l), ghLex.next@cast_ghLex(l), ghLex.done@cast_ghLex(l)

//@ func lemJoin(l []string)
//@ props C13
//@ ensures len(l) < 2 || joinAll(l) == joinAll(l[:len(l)-2]) + l[len(l)-2] + l[len(l)-1]

//@ func lemSplit(s string, i int, j int, k int)
//@ props C13
//@ ensures !(0 <= i && i <= j && j <= k && k <= len(s)) || s[i:k] == s[i:j] + s[j:k]

//@ func lemQuoted(in string, s string, a int, r int, k int)
//@ props C13
//@ pre on bool = 0 <= a && a <= len(in) && 0 <= k && k <= r && r <= len(s) && s == in[a:] && plain(s, k, r)
//@ ensures !on || quotedOK(in, a+k) == quotedOK(in, a+r)
//@ ensures !on || !quotedOK(in, a+r) || quotedEnd(in, a+k) == quotedEnd(in, a+r)
//@ ensures !on || !quotedOK(in, a+r) || quotedVal(in, a+k) == in[a+k:a+r] + quotedVal(in, a+r)

//@ func (l *lexer) run()
//@ props C13 C26
//@ requires l != nil && l.pos == 0 && l.start == 0 && !cast_ghLex(l).begun && !cast_ghLex(l).done
//@ ensures[C13] cast_ghLex(l).done
//@ modifies lexer.pos@l, lexer.start@l, lexer.width@l, lexer.state@l, ghLex.begun@cast_ghLex(l), ghLex.next@cast_ghLex(l), ghLex.done@cast_ghLex(l)
//@ inv () lexOK(l, l.state)

//@ func lex(input string) (l *lexer)
//@ props C13 C26
//@ ensures l != nil && l.input == input && cast_ghLex(l).got == 0
//@ inline
