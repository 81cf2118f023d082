package lens

import "strings"

//v:use lib_fv.go

func v14Filtered(name, typ, parent string) bool {
	if parent == "reflect.Value" && (name == "typ_" || name == "flag" || name == "ptr") {
		return true
	}
	return typ == "reflect.rtype" || typ == "reflect.flag"
}

func v14Want(fs []LensMonitorField, parent string) FieldValues {
	out := FieldValues{}
	for _, f := range fs {
		if v14Filtered(f.Name, f.Type, parent) {
			continue
		}
		v := &FieldValue{}
		if len(f.Children) > 0 {
			v.Children = v14Want(f.Children, f.Type)
		} else if s, ok := f.Value.(string); ok {
			v.Value = s
		} else if b, ok := f.Value.(bool); ok {
			v.Value = "false"
			if b {
				v.Value = "true"
			}
		} else if f.Value == nil {
			v.Value = "<nil>"
		} else {
			v.Value = "-7"
		}
		vAssume(out[f.Name] == nil) // P27 covers fields of the same name
		out[f.Name] = v
	}
	return out
}

func v14Eq(a, b FieldValues) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || x.Value != y.Value || !v14Eq(x.Children, y.Children) {
			return false
		}
	}
	return true
}

// Fields are recorded as a tree of names and texts; only the internals of
// reflection values are left out.
//
//v:bounds trees of depth 3 with 2 top-level fields, one (thorough: two) children and one grandchild; names and types from lists containing every name and type the filter knows; leaf values of 2 (thorough: 4) kinds, strings with a symbolic byte
func VHCollectTree() {
	names := []string{" a\t", "typ_", "flag", "ptr"}
	types := []string{"string", "reflect.Value", "reflect.rtype", "reflect.flag", "main.T"}
	kinds := 2
	if vThorough() {
		kinds = 4
	}
	leaf := func(n, name string) LensMonitorField {
		f := LensMonitorField{Name: name, Type: types[vChoose(n+"type", len(types))]}
		switch vChoose(n+"kind", kinds) {
		case 0:
			f.Value = vStr(n+"v", 1)
		case 1:
			f.Value = vBool(n + "b")
		case 2:
			f.Value = int64(-7)
		}
		return f
	}
	f := LensMonitorField{Name: names[vChoose("name", 4)], Type: types[vChoose("type", len(types))]}
	if vBool("leaf") {
		f.Value = vStr("top", 1)
	} else {
		c := leaf("c", names[vChoose("cname", 4)])
		if vBool("deep") {
			c.Value = nil
			c.Children = []LensMonitorField{leaf("g", names[vChoose("gname", 4)])}
		}
		f.Children = []LensMonitorField{c}
		if vThorough() && vBool("second child") {
			f.Children = append(f.Children, leaf("d", "second"))
		}
	}
	fs := []LensMonitorField{f, {Name: "other", Type: "string", Value: vStr("other", 1)}}
	got := FieldValues{}
	for _, f := range fs {
		collectFields(got, f.Name, f.Value, f.Type, f.Children, "")
	}
	vAssert("the recorded tree is the captured one without reflection internals", v14Eq(got, v14Want(fs, "")))
}

// Texts are recorded as they are up to the limit; beyond it non-strings are
// recorded by a digest that differs whenever the texts differ.
//
//v:bounds two values whose texts are 127..130 bytes, two bytes of each symbolic; types string, a named string, a slice and a struct
//v:assume the hash is collision free
func VHCollectLong() {
	types := []string{"string", "main.mystring", "[]int", "main.T"}
	mk := func(n string) (string, string, string) {
		k := 127 + vChoose(n+"len", 4)
		s := vStr(n, 1) + strings.Repeat("y", k-2) + vStr(n+"end", 1)
		t := types[vChoose(n+"type", len(types))]
		d := FieldValues{}
		collectFields(d, "x", s, t, nil, "")
		return s, t, d["x"].Value
	}
	s1, t1, r1 := mk("a")
	s2, t2, r2 := mk("b")
	if strings.HasSuffix(t1, "string") || len(s1) <= nonStringHashSizeLimit {
		vAssert("a string or short text is recorded as it is", r1 == s1)
		vReach("plain")
	} else {
		vAssert("a long text is recorded by a short digest", len(r1) < 60 && strings.HasPrefix(r1, HashFieldValuePrefix))
		vReach("digest")
	}
	if t1 == t2 {
		vAssert("values are recorded equal exactly when they are", (s1 == s2) == (r1 == r2))
	}
}

// The explanation of a difference is empty exactly when there is none.
//
//v:bounds two texts of 0..2 symbolic bytes, each possibly prefixed as a digest
func VHDiffValues() {
	mk := func(n string) string {
		s := vStr(n, vChoose(n+"len", 3))
		if vBool(n + "hashed") {
			s = HashFieldValuePrefix + s
		}
		return s
	}
	a, b := mk("a"), mk("b")
	vAssert("empty exactly for equal values", ((&DefaultTestResultAnalyzer{}).DiffValues(a, b) == "") == (a == b))
}
