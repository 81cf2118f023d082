package lens

import (
	"bytes"
	"flag"
	"go/build"
	"os"
	"strconv"
	"strings"

	lenspkg "github.com/PatchLens/go-update-lens/lens"
)

//v:pkg lens/cmd

var vEnv30 map[string]string

func vstub_os__Getenv(k string) string { return vEnv30[k] }

func vstub_os__LookupEnv(k string) (string, bool) {
	v, ok := vEnv30[k]
	return v, ok
}

// vGopath30 sets the GOPATH the toolchain reports.
func vGopath30(gp string) {
	build.Default = build.Context{GOPATH: gp, GOROOT: "/goroot", GOOS: "linux", GOARCH: "amd64", Compiler: "gc"}
}

type vExit30 struct{ code int }

func vstub_os__Exit(code int) { panic(vExit30{code}) }

// vParse30 parses a command line.
func vParse30(args []string, custom []CustomFlag) (c *lenspkg.Config, err error, exit int, out string) {
	oldArgs, oldSet := os.Args, flag.CommandLine
	defer func() { os.Args, flag.CommandLine = oldArgs, oldSet }()
	fs := flag.NewFlagSet("modlens", flag.ContinueOnError)
	var b bytes.Buffer
	fs.SetOutput(&b)
	flag.CommandLine = fs
	os.Args = append([]string{"modlens"}, args...)
	exit = -1
	defer func() {
		out = b.String()
		if r := recover(); r != nil {
			x, ok := r.(vExit30)
			if !ok {
				panic(r)
			}
			exit = x.code
		}
	}()
	c, err = ParseFlags(custom)
	return
}

// An option as documented: its default and where its value belongs.
type vOpt30 struct {
	name string
	def  any
	get  func(c *lenspkg.Config) any
}

// The options of the documentation.
var vOpts30 = []vOpt30{
	{"project", "", func(c *lenspkg.Config) any { return c.ProjectDir }},
	{"module", "", func(c *lenspkg.Config) any { return c.ModuleVersionFlag }},
	{"modules", "", func(c *lenspkg.Config) any { return c.ModulesVersionFlag }},
	{"gomod", "", func(c *lenspkg.Config) any { return c.UpdatedGoModFile }},
	{"gowork", "", func(c *lenspkg.Config) any { return c.UpdatedGoWorkFile }},
	{"json", "modreport.json", func(c *lenspkg.Config) any { return c.ReportJsonFile }},
	{"charts", "modreport.png", func(c *lenspkg.Config) any { return c.ReportChartsFile }},
	{"mutationscope", "line", func(c *lenspkg.Config) any { return c.MutationScope }},
	{"mutationset", "fast", func(c *lenspkg.Config) any { return c.MutationMode }},
	{"mutationtests", "targeted", func(c *lenspkg.Config) any { return c.MutationTests }},
	{"monitorport", 44440, func(c *lenspkg.Config) any { return c.AstMonitorPort }},
	{"fieldrecurse", 20, func(c *lenspkg.Config) any { return c.MaxFieldRecurse }},
	{"fieldlen", 1024, func(c *lenspkg.Config) any { return c.MaxFieldLen }},
	{"cachemb", 200, func(c *lenspkg.Config) any { return c.CacheMB }},
	{"timemultiplier", 2, func(c *lenspkg.Config) any { return c.TimeMultiplier }},
	{"tmpcopy", true, func(c *lenspkg.Config) any { return c.TmpCopy }},
}

// vSpell30 adds an option to a command line in one of its spellings.
func vSpell30(args []string, name, text string, isBool bool, how int) []string {
	switch how {
	case 0:
		return append(args, "-"+name+"="+text)
	case 1:
		return append(args, "--"+name+"="+text)
	}
	if isBool { // a flag of its own
		if text == "true" {
			return append(args, "-"+name)
		}
		return append(args, "-"+name+"="+text)
	}
	return append(args, "-"+name, text)
}

// vValue30 draws a value for an option: its text and what it means.
func vValue30(def any) (string, any) {
	switch def.(type) {
	case string:
		s := vStr("text", 1+vChoose("len", 2))
		return s, s
	case int:
		n := 1 + vChoose("digits", 3)
		t := make([]byte, n)
		v := 0
		for i := range t {
			d := vU8("digit")
			if i == 0 {
				vAssume(vAnd(d >= 1, d <= 9))
			} else {
				vAssume(d <= 9)
			}
			t[i] = '0' + d
			v = v*10 + int(d)
		}
		if vBool("negative") {
			return "-" + string(t), -v
		}
		return string(t), v
	}
	if vBool("on") {
		return "true", true
	}
	return "false", false
}

// vSame30 compares an option's value.
func vSame30(want, got any) bool {
	switch w := want.(type) {
	case string:
		g, ok := got.(string)
		return ok && g == w
	case int:
		g, ok := got.(int)
		return ok && g == w
	}
	return want == got
}

// Every option given on the command line arrives as it was given, in its own
// place in the configuration, however it is spelled and in whatever order; the
// others keep their documented defaults. Of an option given twice the last
// counts.
//
//v:quick 150
//v:thorough 800
//v:bounds each of the 16 options and each pair of them, in either order, the first in all spellings (-x=v, --x=v, -x v); texts of 1..2 symbolic bytes, numbers of 1..3 (of a pair: 1..2) digits of either sign, booleans of both values; one option given twice
//v:outside a command line the flag package refuses (it ends the process)
func VHOptions() {
	vEnv30 = map[string]string{"GOMODCACHE": "/cache"}
	vGopath30("/gopath")
	n := len(vOpts30)
	i := vChoose("option", n)
	j := vChoose("other", n+1)
	want := make([]any, n)
	for k, o := range vOpts30 {
		want[k] = o.def
	}
	want[0], want[1] = "p", "m@v1"
	args := []string{"-project=p", "-module=m@v1"}
	give := func(k, how int) {
		o := vOpts30[k]
		text, v := vValue30(o.def)
		_, isBool := o.def.(bool)
		args = vSpell30(args, o.name, text, isBool, how)
		want[k] = v
	}
	give(i, vChoose("spelling", 3))
	if j < n {
		give(j, 0)
		vReach("two options")
	}
	if want[3] != "" && want[4] != "" { // refused, see VHRequired
		return
	}
	c, err, exit, _ := vParse30(args, nil)
	vAssert("the command line is accepted", err == nil && c != nil && exit == -1)
	for k, o := range vOpts30 {
		vAssert("-"+o.name+" is what the command line says", vSame30(want[k], o.get(c)))
	}
	vAssert("nothing else is made up", len(c.CustomFlags) == 0 && len(c.TargetModules) == 0)
	if i == 15 {
		vReach("a boolean")
	}
	vObs("args", strings.Join(args, " "))
}

// A command line is refused exactly when it names no project, when it names
// no update, or when it names both a go.mod and a go.work.
//
//v:quick 60
//v:thorough 200
//v:bounds each of -project, -module, -modules, -gomod and -gowork absent, empty or given with a text of 1 (thorough: 1..2) symbolic bytes
func VHRequired() {
	vEnv30 = map[string]string{"GOMODCACHE": "/cache"}
	vGopath30("/gopath")
	var args []string
	vals := make([]string, 5)
	for k := range vals {
		how := vChoose("given", 3)
		if how == 0 {
			continue
		}
		if how == 2 {
			l := 1
			if vThorough() {
				l = 1 + vChoose("len", 2)
			}
			vals[k] = vStr("text", l)
		}
		args = append(args, "-"+vOpts30[k].name+"="+vals[k])
	}
	c, err, exit, _ := vParse30(args, nil)
	vAssert("the process goes on", exit == -1)
	ok := vals[0] != "" && (vals[1] != "" || vals[2] != "" || vals[3] != "" || vals[4] != "") && !(vals[3] != "" && vals[4] != "")
	if ok {
		vReach("accepted")
		vAssert("a complete command line is accepted", err == nil && c != nil)
		for k := range vals {
			vAssert("-"+vOpts30[k].name+" is what the command line says", vOpts30[k].get(c).(string) == vals[k])
		}
	} else {
		vReach("refused")
		vAssert("an incomplete or contradictory command line is refused", err != nil)
	}
}

// The options a caller adds arrive under their names as text: as given, or
// their defaults; the standard ones are not disturbed.
//
//v:quick 60
//v:thorough 200
//v:bounds three added options, one of each type, with a default text of 0..1 symbolic bytes, a default number out of three and both default switches, each given (a text of 1..2 symbolic bytes, a number of 1 or 3 digits with a symbolic one, of either sign) or not
//v:outside an added option of another type; one with the name of a standard option (the flag package panics)
func VHCustom() {
	vEnv30 = map[string]string{"GOMODCACHE": "/cache"}
	vGopath30("/gopath")
	ds := vStr("default text", vChoose("len", 2))
	di := []int{0, 7, -345}[vChoose("default number", 3)]
	db := vBool("default switch")
	custom := []CustomFlag{
		{Name: "extra-text", DefaultValue: ds, Usage: "u", Type: "string"},
		{Name: "extra-number", DefaultValue: di, Usage: "u", Type: "int"},
		{Name: "extra-switch", DefaultValue: db, Usage: "u", Type: "bool"},
	}
	wants, wanti, wantb := ds, strconv.Itoa(di), "false"
	if db {
		wantb = "true"
	}
	args := []string{"-project=p"}
	if vBool("text given") {
		t, v := vValue30("")
		wants = v.(string)
		args = append(args, "-extra-text="+t)
	}
	args = append(args, "-module=m@v1")
	if vBool("number given") {
		d := vU8("digit")
		vAssume(vAnd(d >= 1, d <= 9))
		t := string([]byte{'0' + d})
		if vBool("negative") {
			t = "-" + t
		}
		if vBool("more digits") {
			t += "05"
		}
		wanti = t
		args = append(args, "-extra-number="+t)
	}
	switch vChoose("switch given", 3) {
	case 1:
		args, wantb = append(args, "-extra-switch"), "true"
	case 2:
		args, wantb = append(args, "-extra-switch=false"), "false"
	}
	c, err, _, _ := vParse30(args, custom)
	vAssert("added options are accepted", err == nil && c != nil)
	vAssert("there is one entry for each", len(c.CustomFlags) == 3)
	vAssert("a text arrives as it is", c.CustomFlags["extra-text"] == wants)
	vAssert("a number arrives in decimal", c.CustomFlags["extra-number"] == wanti)
	vAssert("a switch arrives as true or false", c.CustomFlags["extra-switch"] == wantb)
	for k, o := range vOpts30 {
		want := o.def
		if k == 0 {
			want = "p"
		} else if k == 1 {
			want = "m@v1"
		}
		vAssert("-"+o.name+" is not disturbed", vSame30(want, o.get(c)))
	}
	vReach("added")
}

// The module cache is the one the environment names, else the one of GOPATH;
// without either the command line is refused.
//
//v:bounds GOMODCACHE unset, empty or a path with a symbolic letter; GOPATH empty or a path with a symbolic letter
//v:outside a GOPATH of several directories
func VHModuleCache() {
	vEnv30 = map[string]string{}
	letter := func() string {
		b := vU8("letter")
		vAssume(vAnd(b >= 'a', b <= 'z'))
		return string([]byte{b})
	}
	want := ""
	gp := ""
	if vBool("gopath") {
		gp = "/g" + letter()
		want = gp + "/pkg/mod"
	}
	vGopath30(gp)
	switch vChoose("gomodcache", 3) {
	case 1:
		vEnv30["GOMODCACHE"] = ""
	case 2:
		want = "/c" + letter()
		vEnv30["GOMODCACHE"] = want
	}
	c, err, _, _ := vParse30([]string{"-project=p", "-module=m@v1"}, nil)
	if want == "" {
		vReach("refused")
		vAssert("refused without a module cache", err != nil)
		return
	}
	vReach("found")
	vAssert("accepted with a module cache", err == nil && c != nil)
	vAssert("the module cache is the configured one", c.Gomodcache == want)
	vAssert("GOPATH is the configured one", c.Gopath == gp)
}

// Asking for help prints the options and does nothing else.
//
//v:bounds -h, --h, -help, --help, -help=true, alone or after a complete command line; the same switched off
func VHHelp() {
	vEnv30 = map[string]string{"GOMODCACHE": "/cache"}
	vGopath30("/gopath")
	var args []string
	full := vBool("full")
	if full {
		args = append(args, "-project=p", "-module=m@v1")
	}
	off := vBool("off")
	if off {
		args = append(args, []string{"-h=false", "--help=false"}[vChoose("spelling", 2)])
	} else {
		args = append(args, []string{"-h", "--h", "-help", "--help", "-help=true"}[vChoose("spelling", 5)])
	}
	c, err, exit, out := vParse30(args, nil)
	if off {
		vReach("off")
		vAssert("no help unless asked for", exit == -1 && (err == nil) == full && (c != nil) == full)
		return
	}
	vReach("help")
	vAssert("help ends the process well", exit == 0)
	for _, o := range vOpts30 {
		vAssert("help tells every option", strings.Contains(out, "-"+o.name))
	}
}
