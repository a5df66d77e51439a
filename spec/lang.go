package ipldgit

// The specification language. These functions are interpreted by the verifier;
// the bodies here let specifications be executed too.

import (
	"fmt"
	"reflect"
	"strconv"
)

// vText marks a template parameter that stands for accumulated text: any string,
// []byte, bytes.Buffer or strings.Builder the loop changes.
type vText string

// vRequires states a precondition.
func vRequires(f func() bool) {}

// vEnsures states a postcondition.
func vEnsures(label string, f func() bool) {}

// vAssert states a proof obligation.
func vAssert(label string, f func() bool) {
	if !f() {
		panic("assertion failed: " + label)
	}
}

// vAssume restricts what follows to the inputs satisfying f.
func vAssume(f func() bool) {}

// vReach states that this point must be reachable.
func vReach(label string) {}

// vUnreachable states that this point must not be reachable.
func vUnreachable(label string) { panic("reached: " + label) }

// vModifies lists what the specified function may change.
func vModifies(ptrs ...any) {}

// vProof is the proof of a lemma.
func vProof(f func()) {}

// vDecreases gives the measure of an induction.
func vDecreases(m int) {}

// vAny is an arbitrary value.
func vAny[T any](name string) T { var z T; return z }

// vEq is mathematical equality.
func vEq[T any](a, b T) bool { return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b) }

// vSnap is the value a has now.
func vSnap[T any](a T) T { return a }

// vModel views a dependency's value as its model.
func vModel[T any](x any) *T { panic("vModel") }

// vHint says which type result i of the specified function has if not nil.
func vHint[T any](i int) {}

// vIntToStr is the decimal form of a non-negative number.
func vIntToStr(n int) string {
	if n < 0 {
		return ""
	}
	return strconv.Itoa(n)
}

// vCast views a value as another type of the same structure.
func vCast[T any](x any) T {
	if t, ok := any(*new(T)).([][]byte); ok {
		for _, s := range x.([]string) {
			t = append(t, []byte(s))
		}
		return any(t).(T)
	}
	v := reflect.ValueOf(x)
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return *(*T)(p.UnsafePointer())
}

// vIsNil tells a nil slice from an empty one.
func vIsNil(b []byte) bool { return b == nil }

// vCatBytes makes a fresh byte slice.
func vCatBytes(s string) []byte { return []byte(s) }

// vWriteInto overwrites the beginning of dst.
func vWriteInto(dst []byte, src string) { copy(dst, src) }

// vErrType tells whether err has dynamic type T.
func vErrType[T any](err error) bool { _, ok := err.(T); return ok }

// vDynType tells whether the interface value x has dynamic type T.
func vDynType[T any](x any) bool { _, ok := x.(T); return ok }

// vRunInit runs the package's init functions.
func vRunInit() {}

// vSameFunc tells whether two functions are the same.
func vSameFunc(a, b any) bool { return true }
