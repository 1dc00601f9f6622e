// Package goroutine: as in gnet.
package goroutine

import (
	"time"

	"github.com/panjf2000/ants/v2"
)

const (
	DefaultAntsPoolSize = 1 << 18
	ExpiryDuration      = 10 * time.Second
	Nonblocking         = true
)

func init() { ants.Release() }

type Pool = ants.Pool

func Default() *Pool {
	options := ants.Options{ExpiryDuration: ExpiryDuration, Nonblocking: Nonblocking}
	p, _ := ants.NewPool(DefaultAntsPoolSize, ants.WithOptions(options))
	return p
}
