//go:build race

package fw

func init() { Race = true }
