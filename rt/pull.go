//go:build !race

package verifrt

import "iter"

// Pull is iter.Pull.
func Pull[V any](seq iter.Seq[V]) (next func() (V, bool), stop func()) { return iter.Pull(seq) }
