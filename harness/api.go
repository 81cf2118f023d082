package lens

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"strings"
	"time"
)

// The verification harness API.  Under the symbolic engine every function here
// is an intrinsic; the bodies below run in native replays, where the drawn
// values come from the solver's assignment.

type vRec struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
	Str  []byte `json:"str"`
}

type vState struct {
	queue    map[string][]vRec
	trace    []string
	thorough bool
	yield    bool
	maxAlloc int
	diverged string
}

var vNat vState

type (
	vAssertFail struct{ label string }
	vDiverge    struct{ why string }
)

// vOnAssert is called on a failed assertion before the panic unwinds.
var vOnAssert func(label string)

func vDraw(name string) vRec {
	q := vNat.queue[name]
	if len(q) == 0 {
		vNat.diverged = "no value left for " + name
		return vRec{}
	}
	vNat.queue[name] = q[1:]
	return q[0]
}

func vBool(name string) bool   { return vDraw(name).Val != 0 }
func vU8(name string) uint8    { return uint8(vDraw(name).Val) }
func vU16(name string) uint16  { return uint16(vDraw(name).Val) }
func vU32(name string) uint32  { return uint32(vDraw(name).Val) }
func vU64(name string) uint64  { return vDraw(name).Val }
func vI8(name string) int8     { return int8(vDraw(name).Val) }
func vI16(name string) int16   { return int16(vDraw(name).Val) }
func vI32(name string) int32   { return int32(vDraw(name).Val) }
func vI64(name string) int64   { return int64(vDraw(name).Val) }
func vInt(name string) int     { return int(vDraw(name).Val) }
func vUint(name string) uint   { return uint(vDraw(name).Val) }
func vF32(name string) float32 { return math.Float32frombits(uint32(vDraw(name).Val)) }
func vF64(name string) float64 { return math.Float64frombits(vDraw(name).Val) }

// vIntRange is a symbolic integer in [lo, hi].
func vIntRange(name string, lo, hi int) int { return int(vDraw(name).Val) }

// vChoose forks over 0..n-1.
func vChoose(name string, n int) int { return int(vDraw(name).Val) }

// vStr is a string of n symbolic bytes.
func vStr(name string, n int) string { return string(vBytes(name, n)) }

// vBytes is a slice of n symbolic bytes.
func vBytes(name string, n int) []byte {
	b := make([]byte, n)
	copy(b, vDraw(name).Str)
	return b
}

// vConc forks over the values of x.
func vConc(x int) int { return x }

func vAssume(c bool) {
	if !c {
		panic(vDiverge{"assumption does not hold"})
	}
}

func vAssert(label string, c bool) {
	if !c {
		if vOnAssert != nil {
			vOnAssert(label)
		}
		panic(vAssertFail{label})
	}
}

func vReach(label string) {}

// vObs records a value for comparison between the encoding and the real code.
func vObs(name string, v any) { vNat.trace = append(vNat.trace, name+"="+vFmt(v)) }

func vFmt(v any) string {
	if v == nil {
		return "nil"
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Bool:
		return fmt.Sprintf("%v", r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%d", r.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%d", r.Uint())
	case reflect.Float32:
		return fmt.Sprintf("%x", math.Float32bits(float32(r.Float())))
	case reflect.Float64:
		return fmt.Sprintf("%x", math.Float64bits(r.Float()))
	case reflect.String:
		return fmt.Sprintf("%q", []byte(r.String()))
	case reflect.Slice:
		if r.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%q", r.Bytes())
		}
	}
	return "?"
}

// vMapOrder makes the iteration order of maps a symbolic choice.
func vMapOrder(on bool) {}

// vSched makes the interleaving of goroutines a symbolic choice with at most
// preempt preemptions; mem adds preemption points at shared-memory accesses.
func vSched(preempt int, mem bool) {}
func vSchedOff()                   {}

// vMaxAlloc makes a single allocation of more than n bytes a violation.
func vMaxAlloc(n int) { vNat.maxAlloc = n }

func vThorough() bool { return vNat.thorough }
func vSymbolic() bool { return false }
func vYield() {
	runtime.Gosched()
	if vNat.yield && rand.IntN(2) == 0 {
		time.Sleep(time.Duration(rand.IntN(1000)) * time.Microsecond)
	}
}

func vAnd(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func vOr(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func vImp(a, b bool) bool       { return vOr(!a, b) }
func vEqBytes(a, b []byte) bool { return string(a) == string(b) }
func vDeepEq(a, b any) bool     { return reflect.DeepEqual(a, b) }
func vIteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// vNY perturbs the schedule in native replays.
func vNY() {
	if !vNat.yield {
		return
	}
	switch r := rand.IntN(400); {
	case r < 120:
		runtime.Gosched()
	case r == 399:
		time.Sleep(time.Duration(rand.IntN(3000)) * time.Microsecond)
	case r >= 390:
		time.Sleep(time.Duration(rand.IntN(60)) * time.Microsecond)
	}
}

// vTempDir is a scratch directory of the native replay.
func vTempDir() string {
	d, err := os.MkdirTemp("", "vh-")
	if err != nil {
		panic(err)
	}
	return d
}

func vHas(s, sub string) bool { return strings.Contains(s, sub) }
