package lens

// v03Leaf is a leaf with a value long enough to be worth sharing, or a short one.
func v03Leaf(name string) *FieldValue {
	if vBool(name + ".long") {
		return &FieldValue{Value: "value" + vStr(name, 1)}
	}
	return &FieldValue{Value: vStr(name, 1)}
}

func v03LongLeaf(name string) *FieldValue { return &FieldValue{Value: "value" + vStr(name, 1)} }

// v03Shape builds one of the field trees; leaf contents are symbolic.
func v03Shape(name string, k int) FieldValues {
	l := func(i string) *FieldValue { return v03LongLeaf(name + i) }
	node := func(fv FieldValues) *FieldValue { return &FieldValue{Children: fv} }
	switch k {
	case 0:
		return nil
	case 1:
		return FieldValues{}
	case 2:
		return FieldValues{"x": v03Leaf(name)}
	case 3:
		return FieldValues{"x": l("1"), "y": l("2")}
	case 4:
		return FieldValues{"x": node(FieldValues{"a": l("1")})}
	case 5:
		return FieldValues{"x": node(FieldValues{"a": l("1")}), "y": l("2")}
	case 6:
		return FieldValues{"x": node(FieldValues{"a": l("1"), "y": l("2")})}
	case 7:
		return FieldValues{"x": {Value: vStr(name+"v", 1), Children: FieldValues{"a": l("1")}}}
	case 8:
		return FieldValues{"x": node(FieldValues{"a": node(FieldValues{"b": l("1")}), "y": l("2")})}
	case 9:
		return FieldValues{"x": node(FieldValues{"a": l("1")}), "a": l("2")}
	default:
		return FieldValues{"x": node(FieldValues{"a": node(FieldValues{"b": l("1"), "y": l("2")})})}
	}
}

const v03Shapes = 11

func v03EqFV(a, b FieldValues) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || x == nil || y == nil {
			return false
		}
		if len(x.Children) != len(y.Children) {
			return false
		}
		if !vAnd(x.Value == y.Value, v03EqFV(x.Children, y.Children)) {
			return false
		}
	}
	return true
}

func v03EqStack(a, b []StackFrame) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vAnd(ok, a[i].File == b[i].File, a[i].Line == b[i].Line, a[i].Function == b[i].Function)
	}
	return ok
}

func v03EqFrames(a, b map[string][]CallFrame) bool {
	if len(a) != len(b) {
		return false
	}
	for k, fa := range a {
		fb, ok := b[k]
		if !ok || len(fa) != len(fb) {
			return false
		}
		for i := range fa {
			if !vAnd(fa[i].TimeMillis == fb[i].TimeMillis, v03EqStack(fa[i].Stack, fb[i].Stack), v03EqFV(fa[i].FieldValues, fb[i].FieldValues)) {
				return false
			}
		}
	}
	return true
}

func v03EqStrs(a, b map[string][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
	}
	return true
}
