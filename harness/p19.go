package lens

import (
	"context"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

//v:use lib_fs.go
//v:use lib_exec.go

// Relative paths start at /a.
func vstub_path_S_filepath__Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join("/a", p), nil
}

// v19Tree puts a tree at root: files, directories and a link.
func v19Tree(d *vFS, root, tag string, n int) {
	put := func(p string, node *vNode) {
		d.mkdirs(filepath.Dir(p))
		d.nodes[p] = node
	}
	d.mkdirs(root)
	put(root+"/f", &vNode{data: tag + "1", perm: 0o444})
	if n > 1 {
		put(root+"/s/g", &vNode{data: tag + "22"})
	}
	if n > 2 {
		put(root+"/s/l", &vNode{link: "g"})
	}
	if n > 3 {
		put(root+"/s/e", &vNode{dir: true})
		put(root+"/z", &vNode{data: ""})
	}
}

// v19Copied: dst has exactly the files of src.
func v19Copied(snap map[string]string, src, dst string) bool {
	n := 0
	for p, s := range snap {
		if p == src || strings.HasPrefix(p, src+"/") {
			n++
			if t, ok := snap[dst+p[len(src):]]; !ok || s != t {
				return false
			}
		}
	}
	for p := range snap {
		if p == dst || strings.HasPrefix(p, dst+"/") {
			n--
		}
	}
	return n == 0
}

// A directory is copied completely or an error is returned, and then nothing
// goes on in the background.
//
//v:bounds trees of 1..4 files, a link and nested directories; at most one failing file operation, cleanly or half done, or one unreadable directory; cancelled before or not; all interleavings of walk and copies with 1 (thorough: 2) preemption(s)
//v:assume reading metadata does not fail
//v:iters 200
//v:quick 60
//v:thorough 300
func VHCopyDir() {
	d := vNewFS(nil)
	n := 1 + vChoose("tree", 4)
	if !vThorough() && n > 3 {
		n = 3
	}
	v19Tree(d, "/src", "a", n)
	want := 0
	for p := range d.nodes {
		if strings.HasPrefix(p, "/src") {
			want++
		}
	}
	before := d.snapshot()
	ctx, cancel := context.WithCancel(context.Background())
	cancelled := false
	switch vChoose("trouble", 4) {
	case 1:
		d.budget = 1
	case 2:
		d.badDir = []string{"/src", "/src/s"}[vChoose("bad", 2)]
		vAssume(n > 1 || d.badDir == "/src")
	case 3:
		cancelled = true
		cancel()
	}
	var mu sync.Mutex
	seen, notified := map[string]int{}, 0
	d.slow = true
	pre := 1
	if vThorough() {
		pre = 2
	}
	vSched(pre, false)
	err := CopyDir(ctx, "/src", "/t/dst", func(p string, info os.FileInfo) {
		mu.Lock()
		defer mu.Unlock()
		seen[p]++
		notified++
	})
	d.budget, d.frozen = 0, true
	vYield()
	vYield()
	vSchedOff()
	cancel()
	bad := d.faults > 0 || d.badDir != "" || cancelled
	vAssert("an error is returned exactly when something failed", (err != nil) == bad)
	if d.faults > 0 && err != nil {
		vAssert("the error tells what failed", strings.Contains(err.Error(), d.err.Error()))
	}
	vAssert("nothing is written after the return", !d.late)
	after := d.snapshot()
	for p, s := range before {
		vAssert("the source stays as it is", after[p] == s)
	}
	if err == nil {
		vReach("copied")
		vAssert("the copy is complete", v19Copied(after, "/src", "/t/dst"))
		ok := notified == want
		for _, k := range seen {
			ok = ok && k == 1
		}
		vAssert("progress is told once for every file and directory", ok)
	}
	vAssert("every file is closed", len(d.handles) == 0)
}

// The temporary copy an analysis works on.
//
//v:bounds project, GOPATH and GOMODCACHE of 1..3 files each (GOMODCACHE at its usual place in GOPATH, elsewhere in it, or outside it; the project in GOPATH or not; project, GOPATH or GOMODCACHE reached by a link); at most one failing file operation
//v:assume reading metadata and removing the temporary directory do not fail
//v:quick 60
//v:thorough 300
func VHTempEnvironment() {
	d := vNewFS(nil)
	d.mkdirs("/tmp")
	e := &AnalysisEngine{Config: &Config{AbsProjDir: "/w/proj", Gopath: "/home/go"}}
	e.Config.Gomodcache = []string{"/home/go/pkg/mod", "/home/go/cache", "/mc", "/home/go..mc"}[vChoose("modcache", 4)]
	if vBool("project in GOPATH") {
		e.Config.AbsProjDir = "/home/go/src/proj"
	}
	n := 1
	if vThorough() {
		n = 3
	}
	v19Tree(d, e.Config.Gopath, "g", n)
	v19Tree(d, e.Config.Gomodcache, "m", n)
	v19Tree(d, e.Config.AbsProjDir, "p", n)
	real := *e.Config
	switch vChoose("link", 4) {
	case 1:
		d.nodes["/lnk"] = &vNode{link: e.Config.AbsProjDir}
		e.Config.AbsProjDir = "/lnk"
	case 2:
		d.nodes["/glnk"] = &vNode{link: "home/go"}
		e.Config.Gopath = "/glnk"
	case 3:
		d.mkdirs("/home/go/pkg")
		d.nodes["/home/go/pkg/m"] = &vNode{link: "/mc"}
		v19Tree(d, "/mc", "m", n)
		e.Config.Gomodcache = "/home/go/pkg/m"
		real.Gomodcache = "/mc"
	}
	given := *e.Config
	before := d.snapshot()
	d.budget = vChoose("faults", 2)
	cleanup, err := e.setupTempEnvironment()
	d.budget = 0
	vAssert("an error is returned exactly when something failed", (err != nil) == (d.faults > 0))
	if err != nil {
		vAssert("nothing is left after a failure", vSameFiles(before, d.snapshot()))
		vAssert("the configuration is unchanged after a failure", e.Config.AbsProjDir == given.AbsProjDir && e.Config.Gopath == given.Gopath && e.Config.Gomodcache == given.Gomodcache)
		return
	}
	vReach("copied")
	snap := d.snapshot()
	for p, s := range before {
		vAssert("the originals stay as they are", snap[p] == s)
	}
	for i, c := range [][2]string{{real.AbsProjDir, e.Config.AbsProjDir}, {real.Gopath, e.Config.Gopath}, {real.Gomodcache, e.Config.Gomodcache}} {
		_, old := before[c[1]]
		vAssert("the analysis gets new directories", !old && i >= 0)
		vAssert("the analysis gets complete copies", v19Copied(snap, c[0], c[1]))
	}
	vAssert("the copies are separate from the project's", e.Config.AbsProjDir != e.Config.Gopath)
	// whatever the analysis does to its copies, the originals stay
	for _, p := range []string{e.Config.AbsProjDir, e.Config.Gopath, e.Config.Gomodcache} {
		_ = os.WriteFile(p+"/f", []byte("changed"), 0o644)
		_ = os.WriteFile(p+"/new", []byte("new"), 0o644)
	}
	cleanup()
	vAssert("afterwards everything is as it was", vSameFiles(before, d.snapshot()))
}

// Everything becomes writable; nothing else changes.
//
//v:bounds a tree of files, directories and a link to a file outside, with any permissions of owner, group and others; at most one failing change of permissions, or an unreadable directory and then (thorough: always) all interleavings with 1 preemption
//v:iters 200
//v:quick 60
//v:thorough 200
func VHWriteChmod() {
	d := vNewFS(map[string]string{"/o/x": "x"})
	v19Tree(d, "/r", "a", 1)
	d.nodes["/r/s"] = &vNode{dir: true}
	d.nodes["/r/s/l"] = &vNode{link: "/o/x"}
	d.nodes["/o/x"].perm = 0o400
	perms := map[string]os.FileMode{}
	for _, p := range []string{"/r", "/r/f", "/r/s"} {
		d.nodes[p].perm = os.FileMode(vIntRange("perm", 1, 0o777))
		perms[p] = d.nodes[p].perm
	}
	trouble := vChoose("trouble", 3)
	if trouble == 1 {
		d.budget = 1
	} else if trouble == 2 {
		d.badDir = "/r/s"
	}
	if vThorough() || trouble == 2 {
		vSched(1, false)
	}
	err := WriteChmod(context.Background(), "/r")
	d.frozen = true
	vYield()
	vYield()
	vSchedOff()
	vAssert("an error is returned exactly when something failed", (err != nil) == (d.faults > 0 || trouble == 2))
	vAssert("nothing is changed after the return", !d.late)
	vAssert("what a link points to is left alone", d.nodes["/o/x"].perm == 0o400)
	if err != nil {
		return
	}
	for p, m := range perms {
		want := m | 0o222
		if d.nodes[p].dir {
			want |= 0o111
		}
		vAssert("files become writable, directories also accessible, the rest is kept", d.nodes[p].perm == want)
	}
}

// Whether a file is in a directory.
//
//v:bounds paths of up to 3 (thorough: 4) elements out of a, b, ., .., ... and ..a, absolute or relative to a fixed directory
//v:quick 60
//v:thorough 200
func VHWithinDir() {
	max := 3
	if vThorough() {
		max = 4
	}
	elems := []string{"a", "..", "..a", ".", "...", "b"}
	path := func(tag string) (string, []string) {
		s, abs := "/", true
		var at []string
		if vBool(tag + " relative") {
			s, at, abs = "", []string{"a"}, false
		}
		n := vChoose(tag+" n", max+1)
		for i := 0; i < n; i++ {
			e := elems[vChoose(tag, len(elems))]
			if i > 0 {
				s += "/"
			}
			s += e
			switch e {
			case ".":
			case "..":
				if len(at) > 0 {
					at = at[:len(at)-1]
				}
			default:
				at = append(at, e)
			}
		}
		vAssume(abs || n > 0)
		return s, at
	}
	f, fa := path("file")
	dir, da := path("dir")
	in := len(fa) >= len(da)
	for i := range da {
		in = in && fa[i] == da[i]
	}
	got, err := fileWithinDir(f, dir)
	vAssert("a file is within a directory exactly when its path leads there", err == nil && got == in)
}
