package lens

import (
	"strconv"
	"strings"
)

// A small interpreter of the shell scripts the code under test writes: simple
// commands, lists, pipes, if, case, groups, substitutions and arrays.
type vSh struct {
	vars   map[string]string
	arrays map[string]map[string]string
	cmd    func(args []string, in string) (out string, status int) // any other command
	bad    string                                                 // what could not be interpreted
	src    string
	pos    int
	status int
	trap   string
	exited bool
	subst  bool // a command was substituted
	out    []byte
}

func vShRun(script string, vars map[string]string, cmd func(args []string, in string) (string, int)) (status int, bad string) {
	sh := &vSh{vars: vars, arrays: map[string]map[string]string{}, cmd: cmd}
	sh.script(script)
	if t := sh.trap; t != "" {
		sh.trap = ""
		st := sh.status
		sh.exited = false
		sh.script(t)
		sh.status = st
	}
	return sh.status, sh.bad
}

func (sh *vSh) script(s string) {
	src, pos := sh.src, sh.pos
	sh.src, sh.pos = s, 0
	sh.list(true)
	if sh.pos < len(sh.src) && !sh.exited {
		sh.fail("text left: " + sh.src[sh.pos:])
	}
	sh.src, sh.pos = src, pos
}

func (sh *vSh) fail(s string) {
	if sh.bad == "" {
		sh.bad = s
	}
	sh.exited = true
}

// spaces skips blanks and comments, and line ends if nl.
func (sh *vSh) spaces(nl bool) {
	for sh.pos < len(sh.src) {
		c := sh.src[sh.pos]
		switch {
		case c == ' ' || c == '\t':
		case nl && (c == '\n' || c == ';') && !strings.HasPrefix(sh.src[sh.pos:], ";;"):
		case c == '\\' && sh.pos+1 < len(sh.src) && sh.src[sh.pos+1] == '\n':
			sh.pos++
		case c == '#':
			for sh.pos < len(sh.src) && sh.src[sh.pos] != '\n' {
				sh.pos++
			}
			continue
		default:
			return
		}
		sh.pos++
	}
}

func (sh *vSh) peek(s string) bool { return strings.HasPrefix(sh.src[sh.pos:], s) }

// word is the source of the next word.
func (sh *vSh) word() string {
	sh.spaces(false)
	start := sh.pos
	for sh.pos < len(sh.src) {
		switch c := sh.src[sh.pos]; {
		case c == '\'':
			sh.pos++
			for sh.pos < len(sh.src) && sh.src[sh.pos] != '\'' {
				sh.pos++
			}
			sh.pos++
		case c == '"':
			sh.pos++
			for sh.pos < len(sh.src) && sh.src[sh.pos] != '"' {
				sh.inner()
			}
			sh.pos++
		case strings.IndexByte(" \t\n;|&()", c) >= 0:
			return sh.src[start:sh.pos]
		default:
			sh.inner()
		}
	}
	return sh.src[start:min(sh.pos, len(sh.src))]
}

// inner passes one character or substitution.
func (sh *vSh) inner() {
	switch {
	case sh.peek("$("):
		sh.nested('(', ')')
	case sh.peek("${"):
		sh.nested('{', '}')
	case sh.peek("\\"):
		sh.pos += 2
	default:
		sh.pos++
	}
}

// nested passes $( ) or ${ }.
func (sh *vSh) nested(open, shut byte) {
	sh.pos += 2
	for sh.pos < len(sh.src) && sh.src[sh.pos] != shut {
		switch sh.src[sh.pos] {
		case '\'':
			sh.pos++
			for sh.pos < len(sh.src) && sh.src[sh.pos] != '\'' {
				sh.pos++
			}
			sh.pos++
		case '"':
			sh.pos++
			for sh.pos < len(sh.src) && sh.src[sh.pos] != '"' {
				sh.inner()
			}
			sh.pos++
		default:
			sh.inner()
		}
	}
	sh.pos++
}

// key tells whether reserved word w comes next.
func (sh *vSh) key(w string) bool {
	if !sh.peek(w) {
		return false
	}
	e := sh.pos + len(w)
	return e == len(sh.src) || strings.IndexByte(" \t\n;)", sh.src[e]) >= 0
}

func (sh *vSh) expect(w string) {
	sh.spaces(true)
	if !sh.key(w) {
		sh.fail("expected " + w + " before " + sh.src[sh.pos:])
		return
	}
	sh.pos += len(w)
}

// list interprets commands up to the end of a compound command.
func (sh *vSh) list(run bool) {
	for !(run && sh.exited) && sh.bad == "" {
		sh.spaces(true)
		if sh.pos >= len(sh.src) || sh.key("then") || sh.key("else") || sh.key("elif") || sh.key("fi") || sh.key("esac") || sh.key("}") || sh.peek(";;") {
			return
		}
		sh.andOr(run)
	}
}

func (sh *vSh) andOr(run bool) {
	sh.pipe(run)
	for !sh.exited {
		sh.spaces(false)
		switch {
		case sh.peek("||"):
			sh.pos += 2
			sh.spaces(true)
			sh.pipe(run && sh.status != 0)
		case sh.peek("&&"):
			sh.pos += 2
			sh.spaces(true)
			sh.pipe(run && sh.status == 0)
		default:
			return
		}
	}
}

func (sh *vSh) pipe(run bool) {
	in := ""
	for !sh.exited {
		out := sh.out
		sh.out = nil
		sh.command(run, in)
		sh.spaces(false)
		if !sh.peek("|") || sh.peek("||") {
			sh.out = append(out, sh.out...)
			return
		}
		sh.pos++
		in = string(sh.out)
		sh.out = out
	}
}

func (sh *vSh) command(run bool, in string) {
	sh.spaces(false)
	switch {
	case sh.key("if"):
		sh.pos += 2
		done := false
		for {
			sh.list(run && !done)
			ok := run && !done && !sh.exited && sh.status == 0
			if run && sh.exited {
				return
			}
			sh.expect("then")
			sh.list(ok)
			if run && sh.exited || sh.bad != "" {
				return
			}
			done = done || ok
			if sh.key("elif") {
				sh.pos += 4
				continue
			}
			if sh.key("else") {
				sh.pos += 4
				sh.list(run && !done)
				if run && sh.exited {
					return
				}
			} else if run && !done {
				sh.status = 0
			}
			sh.expect("fi")
			return
		}
	case sh.key("case"):
		sh.pos += 4
		v := ""
		if w := sh.word(); run {
			v = strings.Join(sh.expand(w), " ")
		}
		sh.expect("in")
		done := false
		for sh.bad == "" {
			sh.spaces(true)
			if sh.key("esac") {
				sh.pos += 4
				return
			}
			hit := false
			for {
				w := sh.word()
				if run {
					if p := strings.Join(sh.expand(w), " "); p == v || w == "*" {
						hit = true
					}
				}
				sh.spaces(false)
				if !sh.peek("|") {
					break
				}
				sh.pos++
			}
			if !sh.peek(")") {
				sh.fail("expected )")
				return
			}
			sh.pos++
			sh.list(run && hit && !done)
			if run && sh.exited {
				return
			}
			done = done || hit
			sh.spaces(true)
			if sh.peek(";;") {
				sh.pos += 2
			}
		}
	case sh.key("{"):
		sh.pos++
		sh.list(run)
		if !(run && sh.exited) {
			sh.expect("}")
		}
	default:
		sh.simple(run, in)
	}
}

func (sh *vSh) simple(run bool, in string) {
	var args []string
	for {
		sh.spaces(false)
		if sh.pos >= len(sh.src) || strings.IndexByte("\n;|)", sh.src[sh.pos]) >= 0 || sh.peek("&&") {
			break
		}
		w := sh.word()
		if strings.HasSuffix(w, ">") && sh.peek("&") { // 2>&1
			sh.pos++
			sh.word()
			if w == "1>" || w == ">" {
				in += "\x00" // to stderr
			}
			continue
		}
		if w == "" {
			sh.fail("no command at " + sh.src[sh.pos:])
			return
		}
		if !run {
			continue
		}
		if i := strings.IndexByte(w, '='); i > 0 && (len(args) == 0 || args[0] == "export") && vShName(w[:i]) {
			sh.subst = false
			v := sh.text(w[i+1:])
			if !sh.subst || len(args) == 1 { // export itself succeeds
				sh.status = 0
			}
			sh.assign(w[:i], v)
			continue
		}
		args = append(args, sh.expand(w)...)
	}
	if !run || len(args) == 0 {
		return
	}
	quiet := strings.HasSuffix(in, "\x00")
	in = strings.TrimSuffix(in, "\x00")
	sh.status = 0
	out := ""
	switch args[0] {
	case "export", "declare":
	case "echo":
		out = strings.Join(args[1:], " ") + "\n"
	case "printf":
		if len(args) == 3 && strings.Count(args[1], "%d")+strings.Count(args[1], "%s") == 1 {
			out = strings.Replace(strings.Replace(args[1], "%d", args[2], 1), "%s", args[2], 1)
		} else {
			sh.fail("printf")
		}
	case "tr":
		if len(args) == 3 && len(args[1]) == 1 && len(args[2]) == 1 {
			out = strings.ReplaceAll(in, args[1], args[2])
		} else {
			sh.fail("tr")
		}
	case "[":
		a := args[1:]
		neg := false
		if len(a) > 0 && a[0] == "!" {
			neg, a = true, a[1:]
		}
		ok := false
		switch {
		case len(a) == 3 && a[0] == "-z" && a[2] == "]":
			ok = a[1] == ""
		case len(a) == 2 && a[0] == "-z" && a[1] == "]":
			ok = true // as bash: one operand, which is not empty
		case len(a) == 3 && a[0] == "-n" && a[2] == "]":
			ok = a[1] != ""
		case len(a) == 4 && (a[1] == "=" || a[1] == "==") && a[3] == "]":
			ok = a[0] == a[2]
		case len(a) == 4 && a[1] == "!=" && a[3] == "]":
			ok = a[0] != a[2]
		default:
			sh.fail("[")
		}
		if ok == neg {
			sh.status = 1
		}
	case "trap":
		if len(args) == 3 && args[2] == "EXIT" {
			sh.trap = args[1]
		} else {
			sh.fail("trap")
		}
	case "exit":
		if len(args) > 1 {
			sh.status = 0
			for _, c := range args[1] {
				sh.status = sh.status*10 + int(c-'0')
			}
		}
		sh.exited = true
	case "true", ":":
	case "false":
		sh.status = 1
	default:
		out, sh.status = sh.cmd(args, in)
		if sh.status == 127 {
			sh.fail("command " + args[0])
		}
	}
	if !quiet {
		sh.out = append(sh.out, out...)
	}
}

func vShName(s string) bool {
	if i := strings.IndexByte(s, '['); i > 0 && strings.HasSuffix(s, "]") {
		s = s[:i]
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func (sh *vSh) assign(name, v string) {
	if i := strings.IndexByte(name, '['); i > 0 {
		m := sh.arrays[name[:i]]
		if m == nil {
			m = map[string]string{}
			sh.arrays[name[:i]] = m
		}
		m[sh.text(name[i+1:len(name)-1])] = v
		return
	}
	sh.vars[name] = v
}

// text expands a word without splitting it.
func (sh *vSh) text(w string) string {
	return strings.Join(sh.fields(w, false), "")
}

func (sh *vSh) expand(w string) []string { return sh.fields(w, true) }

func (sh *vSh) fields(w string, split bool) []string {
	var out []string
	cur, has := "", false
	add := func(s string, quoted bool) {
		if quoted || !split {
			cur += s
			has = has || quoted || s != ""
			return
		}
		for i := 0; i < len(s); i++ {
			if s[i] == ' ' || s[i] == '\n' || s[i] == '\t' {
				if has {
					out = append(out, cur)
				}
				cur, has = "", false
			} else {
				cur += s[i : i+1]
				has = true
			}
		}
	}
	quoted := false
	for i := 0; i < len(w); {
		switch c := w[i]; {
		case c == '\'' && !quoted:
			j := i + 1 + strings.IndexByte(w[i+1:], '\'')
			add(w[i+1:j], true)
			i = j + 1
		case c == '"':
			quoted = !quoted
			add("", true)
			i++
		case c == '\\' && i+1 < len(w):
			add(w[i+1:i+2], true)
			i += 2
		case strings.HasPrefix(w[i:], "$("):
			t := &vSh{src: w, pos: i}
			t.nested('(', ')')
			sub := &vSh{vars: sh.vars, arrays: sh.arrays, cmd: sh.cmd}
			sub.script(w[i+2 : t.pos-1])
			if sub.bad != "" {
				sh.fail(sub.bad)
			}
			sh.status, sh.subst = sub.status, true
			add(strings.TrimRight(string(sub.out), "\n"), quoted)
			i = t.pos
		case strings.HasPrefix(w[i:], "${"):
			t := &vSh{src: w, pos: i}
			t.nested('{', '}')
			add(sh.param(w[i+2:t.pos-1]), quoted)
			i = t.pos
		case strings.HasPrefix(w[i:], "$?"):
			add(strconv.Itoa(sh.status), quoted)
			i += 2
		case c == '$' && i+1 < len(w) && vShName(w[i+1:i+2]):
			j := i + 1
			for j < len(w) && vShName("a"+w[j:j+1]) {
				j++
			}
			add(sh.vars[w[i+1:j]], quoted)
			i = j
		default:
			add(w[i:i+1], quoted)
			has = true
			i++
		}
	}
	if has {
		out = append(out, cur)
	}
	return out
}

func (sh *vSh) param(p string) string {
	if i := strings.Index(p, ":-"); i > 0 {
		if v := sh.vars[p[:i]]; v != "" {
			return v
		}
		return sh.text(p[i+2:])
	}
	if i := strings.IndexByte(p, '+'); i > 0 {
		if _, ok := sh.vars[p[:i]]; ok {
			return sh.text(p[i+1:])
		}
		return ""
	}
	if i := strings.IndexByte(p, '['); i > 0 {
		return sh.arrays[p[:i]][sh.text(p[i+1:len(p)-1])]
	}
	if !vShName(p) {
		sh.fail("${" + p + "}")
	}
	return sh.vars[p]
}
