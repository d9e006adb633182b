//go:build go1.18

// Package v is the specification kit: the vocabulary of the contracts. It
// exists only in the verifier's overlay; the bodies are never run, the
// verifier interprets the calls.
package v

// World is the state of everything the contracts do not describe.
type World struct{ w int }

// Requires states a precondition.
func Requires(label string, b bool) {}

// Split distinguishes cases: the contract is checked for each of them.
func Split(b bool) {}

// Ensures states a postcondition.
func Ensures(label string, b bool) {}

// Assert states an intermediate fact.
func Assert(label string, b bool) {}

// Assume restricts the inputs; it is reported as an assumption.
func Assume(label string, b bool) {}

// Inv proposes a loop invariant.
func Inv[F any](f F) {}

// Decr proposes a termination measure.
func Decr[F any](f F) {}

// Mod declares a location the subject may modify.
func Mod[T any](p *T) {}

// ModElems declares the elements of a slice as modifiable.
func ModElems[T any](s []T) {}

// ModAll lifts the frame condition.
func ModAll() {}

// MayPanic allows the subject to panic.
func MayPanic() {}

// Try runs f and reports whether it panicked, and with what.
func Try(f func()) (panicked bool, val interface{}) { return }

// Panic panics in an abstraction.
func Panic(val interface{}) {}

// RuntimeError reports whether a panic value is a run-time error.
func RuntimeError(val interface{}) bool { return false }

// GetWorld and SetWorld access the abstract state.
func GetWorld() World  { return World{} }
func SetWorld(w World) {}

// HavocHeap forgets everything unknown code could change.
func HavocHeap() {}

// Fresh is an arbitrary value.
func Fresh[T any]() (x T) { return }

// Same is identity.
func Same[T any](a, b T) bool { return false }

// Eq is equality of contents.
func Eq[T any](a, b T) bool { return false }

// Seq is equality of two slices' elements, in order.
func Seq[T any](a, b []T) bool { return false }

// Disjoint says that two slices are in different arrays.
func Disjoint[T any](a, b []T) bool { return false }

// Implies is implication.
func Implies(a, b bool) bool { return !a || b }

// TypeIs reports the dynamic type.
func TypeIs[T any](x interface{}) bool { return false }

// IsNew reports that an object was allocated by the code under contract.
func IsNew[T any](p *T) bool { return false }

// Unreachable must not be reached.
func Unreachable(label string) {}

// Captured is the variable of type T that the function literal f shares.
func Captured[T, F any](f F) *T { return nil }

// Undecided ends a contract that does not fit the code.
func Undecided(label string) {}

// Visited: an iteration over m has come to the key k.
func Visited[K comparable, T any](m map[K]T, k K) bool { return false }

// Raw is the content of a reflect.Value, whatever model it is given.
func Raw[T any](x T) interface{} { return nil }
