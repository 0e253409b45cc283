// Package vc is the specification vocabulary used by the contract files. The
// functions are interpreted by govc; they are never executed.
package vc

// Requires states a precondition; it is checked at every call.
func Requires(name string, cond bool) {}

// Ensures states a postcondition as a function of the results.
func Ensures(name string, f interface{}) {}

// Invariant is tried on every loop where the named variables are in scope.
// The special parameter iter is the number of completed iterations.
func Invariant(name string, f interface{}) {}

// Assume is an unchecked assumption; every use is listed in the evidence.
func Assume(name string, cond bool) {}

// Decreases is reserved for termination measures.
func Decreases(name string, f interface{}) {}

// Modifies lists objects (pointers, maps, slices) the function may change.
func Modifies(xs ...interface{}) {}

// ModifiesIf is Modifies under a condition.
func ModifiesIf(cond bool, xs ...interface{}) {}

// ModifiesAll allows changes to every object of the type.
func ModifiesAll(x interface{}) {}

// ModifiesField allows changes to one field of every object of the type.
func ModifiesField(x interface{}, field string) {}

// Forall and Exists quantify over lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool { return false }
func Exists(lo, hi int, f func(i int) bool) bool { return false }

// All and Some quantify over all values of the parameter types.
func All(f interface{}) bool  { return false }
func Some(f interface{}) bool { return false }

// AllPat is All with an explicit instantiation trigger.
func AllPat(trigger, f interface{}) bool { return false }

// Old evaluates in the state at function entry.
func Old(f func() bool) bool       { return false }
func OldInt(f func() int) int      { return 0 }
func OldStr(f func() string) string { return "" }

// Fresh: allocated by the function. Allocated: exists in the current state.
func Fresh(x interface{}) bool     { return false }
func Allocated(x interface{}) bool { return false }

// PartOf: lies in the memory of the same allocation.
func PartOf(x, whole interface{}) bool { return false }

// Visited: key already produced by the enclosing map iteration.
func Visited(k interface{}) bool { return false }

// Called: the function value was called with this first argument.
func Called(f interface{}, x interface{}) bool { return false }

func Implies(a, b bool) bool { return false }
func Iff(a, b bool) bool     { return false }

// Same: identical values; for slices, the same elements of the same array.
func Same(a, b interface{}) bool { return false }
