package lens

import (
	"sort"
	"strconv"
)

//v:use lib_fs.go

// v17Digit is a symbolic decimal digit.
func v17Digit(name string) byte { return '0' + byte(vIntRange(name, 0, 9)) }

type v17Req struct {
	ver      string
	digit    byte
	indirect bool
	in       bool
}

var v17Names = []string{"example.com/m0", "example.com/m1", "example.com/m1/sub"}

var v17Form int // of versions

func v17Mod(tag string, n int, goVer string, block bool) (string, []v17Req) {
	reqs := make([]v17Req, n)
	s := "module example.com/" + tag + "\n"
	if goVer != "" {
		s += "\ngo " + goVer + "\n"
	}
	if block {
		s += "\nrequire (\n"
	}
	for i := range reqs {
		if reqs[i].in = vBool(tag + " in"); !reqs[i].in {
			continue
		}
		reqs[i].digit = v17Digit(tag + " ver")
		d := string([]byte{reqs[i].digit})
		reqs[i].ver = []string{"v1." + d + ".0", "v2.0." + d + "+incompatible", "v0.0.0-2020010100000" + d + "-abcdef123456", "v1.2.0-rc." + d}[v17Form]
		reqs[i].indirect = vBool(tag + " indirect")
		if block {
			s += "\t"
		} else {
			s += "\nrequire "
		}
		s += v17Names[i] + " " + reqs[i].ver
		if reqs[i].indirect {
			s += " // indirect"
		}
		s += "\n"
	}
	if block {
		s += ")\n"
	}
	return s, reqs
}

func v17CheckDiff(got []*ModuleChange, old, upd []v17Req) {
	k := 0
	for i := range upd {
		if !old[i].in || !upd[i].in || old[i].ver == upd[i].ver {
			continue
		}
		ok := k < len(got)
		vAssert("every module with another version is found", ok)
		if !ok {
			return
		}
		c := got[k]
		k++
		vAssert("a changed module has its name, versions and kind", c.Name == v17Names[i] && c.PriorVersion == old[i].ver && c.NewVersion == upd[i].ver && c.Indirect == upd[i].indirect)
	}
	vAssert("only modules with another version are found", k == len(got))
}

// The changed modules of an updated go.mod.
//
//v:bounds up to 2 (thorough: 3) modules on either side, with versions that are releases, incompatible ones, pseudo-versions or pre-releases, of any number 0..9, direct or indirect, required one by one or in a block
//v:quick 60
//v:thorough 300
func VHDiffMod() {
	n := 2
	if vThorough() {
		n = 3
	}
	block := vBool("block")
	v17Form = 0
	if n == 2 || !block {
		v17Form = vChoose("form", 4)
	}
	olds, old := v17Mod("p", n, "", block)
	news, upd := v17Mod("p", n, "", block)
	vNewFS(map[string]string{"/w/go.mod": olds, "/u/go.mod": news})
	got, err := DiffModulesFromGoModFiles("/w/go.mod", "/u/go.mod")
	vAssert("the files are compared", err == nil)
	v17CheckDiff(got, old, upd)
	for i := range old {
		v, ind, err := FindModuleVersionInGoMod("/w/go.mod", v17Names[i])
		vAssert("the version of a module is found", err == nil && v == old[i].ver && ind == old[i].indirect)
	}
}

// layout of a project
type v17Member struct {
	use, mod string // directory in go.work, path of go.mod
	rel      string // package pattern
	listed   bool
	exists   bool
	reqs     []v17Req
}

func v17Layout(files map[string]string, root string) []v17Member {
	ms := []v17Member{
		{use: ".", mod: root + "/go.mod", rel: "./..."},
		{use: "./a", mod: root + "/a/go.mod", rel: "./a/..."},
		{use: "./..b", mod: root + "/..b/go.mod", rel: "./..b/..."},
		{use: "../out", mod: "/out/go.mod", rel: "/out/..."},
		{use: "/ext/z", mod: "/ext/z/go.mod", rel: "/ext/z/..."},
	}
	n := 3
	if vThorough() {
		n = 5
	}
	ms = ms[:n]
	if !vThorough() && vBool("outside") {
		ms[2] = v17Member{use: "../out", mod: "/out/go.mod", rel: "/out/..."}
	}
	work := "go 1.21\n"
	haveWork := vBool("work")
	for i := range ms {
		ms[i].listed = haveWork && vBool("listed")
		ms[i].exists = vBool("exists")
		if ms[i].listed {
			work += "\nuse " + ms[i].use + "\n"
		}
		if ms[i].exists {
			nreq := 1
			files[ms[i].mod], ms[i].reqs = v17Mod("m"+strconv.Itoa(i), nreq, "", false)
		}
	}
	if haveWork {
		files[root+"/go.work"] = work
	}
	return ms
}

// The modules of a project, their package patterns and the versions in use.
//
//v:bounds 3 (thorough: 5) possible modules (the project's root, directories inside, one whose name starts with two dots, outside or absolute), each existing or not and listed in a go.work or not; one requirement each, with any minor version 0..9
//v:quick 90
//v:thorough 300
func VHProject() {
	files := map[string]string{"/w/x.txt": "", "/out/x.txt": "", "/ext/z/x.txt": "", "/w/a/x.txt": "", "/w/..b/x.txt": ""}
	ms := v17Layout(files, "/w")
	vNewFS(files)
	_, haveWork := files["/w/go.work"]
	var want []v17Member
	for i, m := range ms {
		if m.exists && (i == 0 || m.listed) {
			want = append(want, m)
		}
	}
	sort.Slice(want, func(i, j int) bool { return want[i].mod < want[j].mod })
	mods, err := ProjectGoModFiles("/w")
	pats, perr := ProjectPackagePatterns("/w")
	ver, ind, verr := FindModuleVersion("/w", v17Names[0])
	vAssert("a project without module files is refused", (err != nil) == (!haveWork && !ms[0].exists) && (perr != nil) == (err != nil) && (verr != nil) == (err != nil))
	if err != nil {
		return
	}
	ok := len(mods) == len(want) && len(pats) == len(want)
	vAssert("every module of the project is found once", ok)
	if !ok {
		return
	}
	wver, wind := "", false
	for i, m := range want {
		vAssert("modules are found at their place, in order", mods[i] == m.mod)
		vAssert("the patterns cover every module", (pats[i] == m.rel || pats[i] == m.mod[:len(m.mod)-len("go.mod")]+"..."))
		if wver == "" && m.reqs[0].in {
			wver, wind = m.reqs[0].ver, m.reqs[0].indirect
		}
	}
	vAssert("a module's version is that of the first go.mod requiring it", ver == wver && ind == wind)
	for _, newest := range []bool{false, true} {
		deps, _, err := parseProjectDeps("/w", newest)
		vAssert("a project without modules is refused", (err != nil) == (len(want) == 0))
		if err != nil {
			continue
		}
		best, have := byte(0), false
		for _, m := range want {
			if r := m.reqs[0]; r.in && (!have || newest && r.digit > best || !newest && r.digit < best) {
				best, have = r.digit, true
			}
		}
		got, has := deps[v17Names[0]]
		vAssert("the oldest or newest version required is used", has == have && (!have || got == "v1."+string([]byte{best})+".0") && (has && len(deps) == 1 || !has && len(deps) == 0))
	}
}

// The changed modules of an updated workspace.
//
//v:bounds up to 3 modules listed in the old or the new go.work, one or two requirements with any minor version 0..9; iteration orders of maps
//v:quick 90
//v:thorough 300
func VHDiffWork() {
	files := map[string]string{"/w/x": "", "/u/x": ""}
	dirs := []string{"a", "b", "c"}
	n := 2
	if vThorough() {
		n = 3
	}
	oldW, newW := "go 1.21\n", "go 1.21\n"
	type key struct{ name, from, to string }
	want := map[key]int{}
	total := 0
	for _, d := range dirs[:n] {
		if vBool("old lists") {
			oldW += "\nuse ./" + d + "\n"
		}
		inNew := vBool("new lists")
		if inNew {
			newW += "\nuse ./" + d + "\n"
		}
		oe, ne := vBool("old exists"), vBool("new exists")
		var or, nr []v17Req
		if oe {
			files["/w/"+d+"/go.mod"], or = v17Mod("o"+d, 1, "", false)
		}
		if ne {
			files["/u/"+d+"/go.mod"], nr = v17Mod("n"+d, 1, "", false)
		}
		listed := inNew || len(oldW) > 8 && oldW[len(oldW)-2:] == d+"\n"
		if listed && oe && ne && or[0].in && nr[0].in && or[0].ver != nr[0].ver {
			want[key{v17Names[0], or[0].ver, nr[0].ver}]++
			total++
		}
	}
	files["/w/go.work"], files["/u/go.work"] = oldW, newW
	vNewFS(files)
	got, err := DiffModulesFromGoWorkFiles("/w", "/u/go.work")
	vAssert("the workspaces are compared", err == nil)
	if err != nil {
		return
	}
	for _, c := range got {
		k := key{c.Name, c.PriorVersion, c.NewVersion}
		vAssert("only changes of listed modules are found", want[k] > 0)
	}
	for k := range want {
		has := false
		for _, c := range got {
			has = has || c.Name == k.name && c.PriorVersion == k.from && c.NewVersion == k.to
		}
		vAssert("every change of a listed module is found", has)
	}
	vAssert("no change is found more often than it occurs", len(got) <= total)
}

// form of a Go version: its text and its place in the order
func v17Go(tag string) (string, [4]int) {
	d := func(n string, lo, hi int) (string, int) {
		v := vIntRange(tag+n, lo, hi)
		if hi > 9 {
			return string([]byte{'0' + byte(v/10), '0' + byte(v%10)}), v
		}
		return string([]byte{'0' + byte(v)}), v
	}
	minor, m := "", 0
	if vBool(tag + " two") {
		minor, m = d(" minor2", 10, 29)
	} else {
		minor, m = d(" minor1", 1, 9)
	}
	switch vChoose(tag+" form", 5) {
	case 4:
		p, v := d(" rc2", 10, 29)
		return "1." + minor + "rc" + p, [4]int{m, 0, 2, v}
	case 0:
		return "1." + minor, [4]int{m, 0, 9, 0}
	case 1:
		p, v := d(" patch", 0, 9)
		return "1." + minor + "." + p, [4]int{m, v, 9, 0}
	case 2:
		p, v := d(" rc", 1, 9)
		return "1." + minor + "rc" + p, [4]int{m, 0, 2, v}
	default:
		p, v := d(" beta", 1, 9)
		return "1." + minor + "beta" + p, [4]int{m, 0, 1, v}
	}
}

// Go versions are ordered as released; the minimum for instrumentation.
//
//v:bounds versions 1.1 to 1.29, with patch level, release candidate up to 29 or beta number up to 9
//v:quick 60
//v:thorough 200
func VHGoVersions() {
	a, ka := v17Go("a")
	b, kb := v17Go("b")
	want := 0
	for i := range ka {
		if want == 0 && ka[i] != kb[i] {
			want = 1
			if ka[i] < kb[i] {
				want = -1
			}
		}
	}
	vAssert("versions are ordered as released", compareGoVersions(a, b) == want)
	o := olderGoVersion(a, b)
	vAssert("the older version is chosen", want < 0 && o == a || want > 0 && o == b || want == 0 && (o == a || o == b))
	vAssert("no version does not count", olderGoVersion("", b) == b && olderGoVersion(a, "") == a)
	below := ka[0] < 13 || ka[0] == 13 && ka[2] < 9
	vAssert("only versions below the minimum are excluded", IsGoVersionBelowMinimum(a) == below && !IsGoVersionBelowMinimum(""))
}
