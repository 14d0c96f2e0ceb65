package zzsim

// GoCallNR is what "go f(a1..aN)" becomes for an f with R results: function
// value and arguments are evaluated by the caller, as the language demands.

func GoCall00(f func()) func() { return func() { Go(f) } }
func GoCall10[A any](f func(A)) func(A) {
	return func(a A) { Go(func() { f(a) }) }
}
func GoCall20[A, B any](f func(A, B)) func(A, B) {
	return func(a A, b B) { Go(func() { f(a, b) }) }
}
func GoCall30[A, B, C any](f func(A, B, C)) func(A, B, C) {
	return func(a A, b B, c C) { Go(func() { f(a, b, c) }) }
}
func GoCall40[A, B, C, D any](f func(A, B, C, D)) func(A, B, C, D) {
	return func(a A, b B, c C, d D) { Go(func() { f(a, b, c, d) }) }
}
func GoCall01[R any](f func() R) func() { return func() { Go(func() { f() }) } }
func GoCall11[A, R any](f func(A) R) func(A) {
	return func(a A) { Go(func() { f(a) }) }
}
func GoCall21[A, B, R any](f func(A, B) R) func(A, B) {
	return func(a A, b B) { Go(func() { f(a, b) }) }
}
func GoCall31[A, B, C, R any](f func(A, B, C) R) func(A, B, C) {
	return func(a A, b B, c C) { Go(func() { f(a, b, c) }) }
}
func GoCall41[A, B, C, D, R any](f func(A, B, C, D) R) func(A, B, C, D) {
	return func(a A, b B, c C, d D) { Go(func() { f(a, b, c, d) }) }
}
func GoCall02[R, Q any](f func() (R, Q)) func() { return func() { Go(func() { f() }) } }
func GoCall12[A, R, Q any](f func(A) (R, Q)) func(A) {
	return func(a A) { Go(func() { f(a) }) }
}
func GoCall22[A, B, R, Q any](f func(A, B) (R, Q)) func(A, B) {
	return func(a A, b B) { Go(func() { f(a, b) }) }
}
func GoCall32[A, B, C, R, Q any](f func(A, B, C) (R, Q)) func(A, B, C) {
	return func(a A, b B, c C) { Go(func() { f(a, b, c) }) }
}
func GoCall42[A, B, C, D, R, Q any](f func(A, B, C, D) (R, Q)) func(A, B, C, D) {
	return func(a A, b B, c C, d D) { Go(func() { f(a, b, c, d) }) }
}
