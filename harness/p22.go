package lens

import (
	"strings"
)

//v:use lib_fs.go

func vstub_path_S_filepath__Abs(p string) (string, error) {
	if strings.HasPrefix(p, "/") {
		return p, nil
	}
	return "/cwd/" + p, nil
}

func v22Base() *Config {
	return &Config{ProjectDir: "/w", ModuleVersionFlag: "example.com/m@v1", AstMonitorPort: 44440, MaxFieldRecurse: 20, MaxFieldLen: 1024, CacheMB: 200,
		TimeMultiplier: 2, MutationScope: "line", MutationMode: "fast", MutationTests: "targeted"}
}

// Numbers and choices are accepted exactly within their ranges.
//
//v:bounds all 64-bit values of the numbers; one of the choices any text of 0..9 bytes
//v:quick 60
//v:thorough 200
func VHRanges() {
	vNewFS(map[string]string{"/w/go.mod": ""})
	c := v22Base()
	c.AstMonitorPort, c.MaxFieldRecurse, c.MaxFieldLen = vInt("port"), vInt("recurse"), vInt("len")
	c.CacheMB, c.TimeMultiplier = vInt("cache"), vInt("time")
	word := func(name string) string { return vStr(name, vChoose(name+" length", 10)) }
	which := vChoose("which", 4)
	scope, mode, tests := true, true, true
	in := func(s string, ws ...string) bool {
		ok := false
		for _, w := range ws {
			ok = vOr(ok, s == w)
		}
		return ok
	}
	switch which {
	case 1:
		c.MutationScope = word("scope")
		scope = in(c.MutationScope, "function", "line", "area", "none")
	case 2:
		c.MutationMode = word("mode")
		mode = in(c.MutationMode, "full", "fast")
	case 3:
		c.MutationTests = word("tests")
		tests = in(c.MutationTests, "full", "targeted")
	}
	ok := vAnd(c.AstMonitorPort >= 1024, c.AstMonitorPort <= 65535, c.MaxFieldRecurse >= 1, c.MaxFieldRecurse <= 100, c.MaxFieldLen >= 1, c.MaxFieldLen <= 1<<20,
		c.CacheMB >= 1, c.CacheMB <= 10240, c.TimeMultiplier >= 1, c.TimeMultiplier <= 100, scope, mode, tests)
	given := *c
	err := c.Prepare()
	vAssert("settings are accepted exactly within their ranges", (err == nil) == ok)
	if err != nil && vBool("again") {
		vAssert("what was refused is refused again", c.Prepare() != nil)
	}
	defer func() {
		if err != nil {
			c.AstMonitorPort, c.MaxFieldRecurse, c.MaxFieldLen, c.CacheMB, c.TimeMultiplier = 44440, 20, 1024, 200, 2
			c.MutationScope, c.MutationMode, c.MutationTests = "line", "fast", "targeted"
			vAssert("a repaired configuration is accepted", c.Prepare() == nil)
		}
	}()
	vAssert("settings are kept", c.AstMonitorPort == given.AstMonitorPort && c.MaxFieldRecurse == given.MaxFieldRecurse && c.MaxFieldLen == given.MaxFieldLen &&
		c.CacheMB == given.CacheMB && c.TimeMultiplier == given.TimeMultiplier && c.MutationScope == given.MutationScope && c.MutationMode == given.MutationMode && c.MutationTests == given.MutationTests)
}

// A module is written as name@version.
//
//v:bounds any text of 0..5 (thorough: 7) bytes
//v:quick 60
//v:thorough 200
func VHTarget() {
	max := 5
	if vThorough() {
		max = 7
	}
	s := vStr("module", vChoose("len", max+1))
	at, dots := -1, false
	for i := 0; i < len(s) && at < 0; i++ {
		if s[i] == '@' {
			at = i
		} else if s[i] == '.' || s[i] == '/' {
			dots = true
		}
	}
	ok := at > 0 && at < len(s)-1 && dots
	m, err := parseTargetModule(s)
	vAssert("exactly texts of the form name@version are accepted", (err == nil) == ok)
	if err == nil {
		vAssert("the module is the one written", m.Name == s[:at] && m.Version == s[at+1:])
	}
}

// Which updates are asked for.
//
//v:bounds project given, relative or not given; a single module, a list of up to 2 modules with blanks, empty or malformed elements, an updated go.mod and an updated go.work, existing, missing or a directory; prepared again after a failure or a success
//v:quick 60
//v:thorough 200
func VHUpdates() {
	d := vNewFS(map[string]string{"/w/go.mod": "", "/u/go.mod": "", "/u/go.work": "", "/d/x/y": ""})
	c := v22Base()
	c.ModuleVersionFlag = ""
	ok := true
	switch vChoose("project", 3) {
	case 1:
		c.ProjectDir = "p"
	case 2:
		c.ProjectDir, ok = "", false
	}
	var want []TargetModule
	any := false
	ver := func(n string) string { return "v" + string([]byte{'0' + byte(vIntRange(n, 0, 9))}) }
	if vBool("module") {
		any = true
		v := ver("v0")
		c.ModuleVersionFlag = "a.b/c@" + v
		want = append(want, TargetModule{"a.b/c", v})
	}
	n := vChoose("modules", 3)
	for i := 0; i < n; i++ {
		any = true
		if i > 0 {
			c.ModulesVersionFlag += ","
		}
		v := ver("v1")
		switch vChoose("element", 4) {
		case 0:
			c.ModulesVersionFlag += " x.y/z@" + v + " "
			want = append(want, TargetModule{"x.y/z", v})
		case 1:
			c.ModulesVersionFlag += "q.r@" + v
			want = append(want, TargetModule{"q.r", v})
		case 2:
			c.ModulesVersionFlag += " "
			ok = false
		case 3:
			c.ModulesVersionFlag += "q.r"
			ok = false
		}
	}
	good := ok
	switch vChoose("gomod", 4) {
	case 1:
		c.UpdatedGoModFile, any = "/u/go.mod", true
	case 2:
		c.UpdatedGoModFile, any, ok = "/u/missing", true, false
	case 3:
		c.UpdatedGoModFile, any, ok = "/d/x", true, false
	}
	switch vChoose("gowork", 4) {
	case 3:
		c.UpdatedGoWorkFile, any, ok = "/d/x", true, false
	case 1:
		ok = ok && c.UpdatedGoModFile == ""
		c.UpdatedGoWorkFile, any = "/u/go.work", true
	case 2:
		c.UpdatedGoWorkFile, any, ok = "/u/missing", true, false
	}
	ok = ok && any
	before := d.snapshot()
	err := c.Prepare()
	vAssert("exactly complete and consistent requests are accepted", (err == nil) == ok)
	vAssert("no file is changed", vSameFiles(before, d.snapshot()) && len(d.handles) == 0)
	if err == nil {
		vAssert("a configuration is prepared once", c.Prepare() != nil)
	} else if good { // repair what was wrong and try again
		c.UpdatedGoModFile, c.UpdatedGoWorkFile = "/u/go.mod", ""
		vAssert("a repaired configuration is accepted", c.Prepare() == nil)
	} else {
		return
	}
	same := len(c.TargetModules) == len(want)
	for i := range want {
		same = same && c.TargetModules[i] == want[i]
	}
	vAssert("exactly the modules asked for are analysed, in order", same)
	vAssert("the project is known by its absolute path", c.AbsProjDir == "/w" && c.ProjectDir == "/w" || c.AbsProjDir == "/cwd/p" && c.ProjectDir == "p")
}

// Reports can be written where asked; looking at that changes no file.
//
//v:bounds both report files in an existing directory, one to create, one that cannot be created because a file is in its place, or none asked for; any file there may already exist; at most one failing file operation
//v:quick 60
//v:thorough 200
func VHOutputs() {
	d := vNewFS(map[string]string{"/w/go.mod": "", "/o/modreport.json": "old", "/blocked": "file"})
	if vBool("other") {
		d.nodes["/o/.write_test"] = &vNode{data: "mine"}
	}
	c := v22Base()
	dirs := []string{"", "/o/", "/new/", "/blocked/", "/o2/a/"}
	j, g := vChoose("json", len(dirs)), vChoose("charts", len(dirs))
	if j > 0 {
		c.ReportJsonFile = dirs[j] + "modreport.json"
	}
	if g > 0 {
		c.ReportChartsFile = dirs[g] + "modreport.png"
	}
	before := d.snapshot()
	d.budget = vChoose("faults", 2)
	err := c.Prepare()
	vAssert("reports that cannot be written are refused", (err != nil) == (j == 3 || g == 3 || d.faults > 0))
	after := d.snapshot()
	for p, s := range before {
		vAssert("no file is changed or lost", after[p] == s)
	}
	for p, s := range after {
		_, old := before[p]
		vAssert("nothing but directories for reports is created", old || s == "<dir>" || d.faults > 0)
	}
}
