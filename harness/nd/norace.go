//go:build !race

package nd

// Raced tells whether the race detector is on.
const Raced = false
