package h

import (
	"fmt"
	"sync"
)

// Replaying is true when behaviours are replayed (in parallel).
var Replaying bool

// Config sets the thresholds of a rope package. Replays run in parallel, so
// there all behaviours of one process have the same thresholds.
type Config struct {
	mu  sync.Mutex
	cur string
}

// Set sets the thresholds to those of o.
func (c *Config) Set(o Obj, sl, jl *int, rr *float64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	k := fmt.Sprint(o.I("sl"), o.I("jl"), o.I("rr"))
	if k == c.cur {
		return
	}
	if c.cur != "" && Replaying {
		panic(Bad("different thresholds in one replay"))
	}
	c.cur = k
	*sl, *jl, *rr = o.I("sl"), o.I("jl"), float64(o.I("rr"))/10
}
