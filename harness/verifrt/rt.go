// Package verifrt is the harness interface of the symbolic engine. The bodies below are used only
// when a harness is compiled natively to replay a counterexample; the engine replaces them.
package verifrt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"

	"sync"
	"time"
)

type varVal struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	V    uint64 `json:"v"`
}

var (
	mu     sync.Mutex
	loaded bool
	vals   []varVal
	Failed bool
	tier   int
)

func load() {
	if loaded {
		return
	}
	loaded = true
	p := os.Getenv("VERIF_REPLAY")
	if p == "" {
		return
	}
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	var r struct {
		Vars []varVal `json:"vars"`
		Tier int      `json:"tier"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	vals = r.Vars
	tier = r.Tier
}

func engineVar(n string) bool {
	switch n {
	case "sched", "preempt", "select", "fault", "crash":
		return true
	}
	return false
}

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	load()
	for i, v := range vals {
		if v.Name == name {
			vals = append(append([]varVal(nil), vals[:i]...), vals[i+1:]...)
			return v.V
		}
		if !engineVar(v.Name) {
			break
		}
	}
	return 0
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next(name)) }

// Uint32 is an arbitrary uint32.
func Uint32(name string) uint32 { return uint32(next(name)) }

// Uint64 is an arbitrary uint64.
func Uint64(name string) uint64 { return next(name) }

// Int64 is an arbitrary int64.
func Int64(name string) int64 { return int64(next(name)) }

// Int is an arbitrary int in [lo, hi].
func Int(name string, lo, hi int) int { return int(int64(next(name))) }

// Bool is an arbitrary bool.
func Bool(name string) bool { return next(name) != 0 }

// Bytes is a slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// String is a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Choose is an arbitrary concrete value in [0, n).
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(name))
}

// Assume restricts the exploration to executions where b holds.
func Assume(b bool) {
	if !b {
		fmt.Println("REPLAY: assumption not satisfied")
		os.Exit(3)
	}
}

// Abort drops the current execution.
func Abort(why string) { fmt.Println("REPLAY: dropped:", why); os.Exit(3) }

// Bound drops the current execution because a bound was exceeded.
func Bound(why string) { Abort(why) }

// Unsupported marks the current execution as outside the encoding.
func Unsupported(why string) { Abort(why) }

// Assert is the property.
func Assert(b bool, msg string) {
	if !b {
		Fail(msg)
	}
}

// Fail reports a violation.
func Fail(msg string) {
	fmt.Println("REPLAY-VIOLATION:", msg)
	os.Exit(1)
}

// Reach records that this point is reachable (vacuity guard).
func Reach(label string) {}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func IteBool(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool  { return string(a) == string(b) }
func EqStr(a, b string) bool    { return a == b }
func InEngine() bool            { return false }
func IsSym(n int64) bool        { return false }
func IsConcrete(b bool) bool    { return true }
func Opt(name string, v int)    {}
func Tier() int                 { load(); return tier }
func Shape(s string)            {}
func Log(a ...interface{})      { fmt.Println(append([]interface{}{"REPLAY-LOG:"}, a...)...) }
func Show(a interface{}) string { return fmt.Sprint(a) }
func Goid() int                 { return 0 }

// WaitIdle waits until every other goroutine is blocked or done and returns how many are left.
func WaitIdle() int {
	for i := 0; i < 50; i++ {
		runtime.Gosched()
		time.Sleep(4 * time.Millisecond)
	}
	return 0
}
func Live() int   { return 0 }
func SchedPoint() {}

func engineOnly() { panic("verifrt: engine-only function") }

// TimerFires is how many timers have fired.
func TimerFires() int                          { return 0 }
func NewTimer() chan time.Time                 { engineOnly(); return nil }
func FreeSlice(b []byte, why string)           {}
func MarkRO(b []byte, why string)              {}
func SliceID(b []byte) int                     { return 0 }
// Delays bounds how often another than the first runnable goroutine continues when one blocks: n in the
// quick tier, without a bound in the thorough one.
func Delays(n int) {
	if Tier() > 0 {
		n = -1
	}
	Opt("delays", n)
}

// HostFile is a file of the repository (engine only).
func HostFile(rel string) []byte { engineOnly(); return nil }
func Sha1(b []byte) []byte                     { engineOnly(); return nil }
func Format(verb string, a interface{}) string { return fmt.Sprintf(verb, a) }
func DeepCopy(v interface{}) interface{}       { engineOnly(); return nil }
func RNew(v interface{}) interface{}           { engineOnly(); return nil }
func RIsPtr(v interface{}) bool                { engineOnly(); return false }
func RKind(r interface{}) string               { engineOnly(); return "" }
func RElemKind(r interface{}) string           { engineOnly(); return "" }
func RTypeName(r interface{}) string           { engineOnly(); return "" }
func RTypeID(r interface{}) int                { engineOnly(); return 0 }
func RGet(r interface{}) interface{}           { engineOnly(); return nil }
func RNumField(r interface{}) int              { engineOnly(); return 0 }
func RField(r interface{}, i int) interface{}  { engineOnly(); return nil }
func RFieldName(r interface{}, i int) string   { engineOnly(); return "" }
func RFieldTag(r interface{}, i int) string    { engineOnly(); return "" }
func RExported(r interface{}, i int) bool      { engineOnly(); return false }
func REmbedded(r interface{}, i int) bool      { engineOnly(); return false }
func RIsNil(r interface{}) bool                { engineOnly(); return false }
func RSetZero(r interface{})                   { engineOnly() }
func RStr(r interface{}) string                { engineOnly(); return "" }
func RSetStr(r interface{}, s string)          { engineOnly() }
func RBool(r interface{}) bool                 { engineOnly(); return false }
func RSetBool(r interface{}, b bool)           { engineOnly() }
func RFloat(r interface{}) float64             { engineOnly(); return 0 }
func RSetFloat(r interface{}, f float64)       { engineOnly() }
func RInt(r interface{}) int64                 { engineOnly(); return 0 }
func RSetInt(r interface{}, i int64) bool      { engineOnly(); return false }
func RLen(r interface{}) int                   { engineOnly(); return 0 }
func RIndex(r interface{}, i int) interface{}  { engineOnly(); return nil }
func RBytes(r interface{}) []byte              { engineOnly(); return nil }
func RSetBytes(r interface{}, b []byte)        { engineOnly() }
func RSetLen(r interface{}, n int)             { engineOnly() }
func RMapMake(r interface{})                   { engineOnly() }
func RMapKeys(r interface{}) []interface{}     { engineOnly(); return nil }
func RMapGet(r, k interface{}) interface{}     { engineOnly(); return nil }
func RMapSet(r, k, v interface{})              { engineOnly() }
func RMapNewElem(r interface{}) interface{}    { engineOnly(); return nil }
func RMapNewKey(r interface{}) interface{}     { engineOnly(); return nil }
func RPtrElem(r interface{}) interface{}       { engineOnly(); return nil }
func RPtrAlloc(r interface{}) interface{}      { engineOnly(); return nil }
func RSetIface(r interface{}, v interface{})   { engineOnly() }
func RAssign(dst, src interface{}) bool        { engineOnly(); return false }
