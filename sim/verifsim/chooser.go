package verifsim

// Chooser is the single source of every decision of a run. In search mode it
// draws from a PRNG seeded by one integer and records what it drew; in replay
// mode it returns a recorded list, and 0, the simplest choice, after its end.
type Chooser struct {
	Rec    []uint64
	replay []uint64
	isRep  bool
	pos    int
	state  uint64
}

// Mix is the splitmix64 finaliser.
func Mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// NewChooser starts a search run.
func NewChooser(seed uint64) *Chooser {
	return &Chooser{state: Mix(seed) ^ Mix(seed^0x5851f42d4c957f2d)}
}

// ReplayChooser replays a recorded choice list.
func ReplayChooser(c []uint64) *Chooser { return &Chooser{replay: c, isRep: true} }

// N draws from [0, n). 0 is the simplest choice.
func (c *Chooser) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if c.isRep {
		if c.pos < len(c.replay) {
			v = c.replay[c.pos] % uint64(n)
		}
		c.pos++
	} else {
		c.state += 0x9e3779b97f4a7c15
		z := c.state
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		v = z % uint64(n)
	}
	c.Rec = append(c.Rec, v)
	return int(v)
}

// Range draws from [lo, hi].
func (c *Chooser) Range(lo, hi int) int { return lo + c.N(hi-lo+1) }

// P is true num times in den; false is the simpler choice.
func (c *Chooser) P(num, den int) bool { return c.N(den) >= den-num }

// Seed draws a 30-bit seed for derived noise; 0 means no noise.
func (c *Chooser) Seed() uint64 { return uint64(c.N(1 << 30)) }

// Weighted draws an index with the given weights; put the simplest first.
func (c *Chooser) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := c.N(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// LogN draws from [0, n) with small values far more likely than large ones.
func (c *Chooser) LogN(n int) int {
	if n <= 1 {
		return 0
	}
	bits := 1
	for 1<<bits < n {
		bits++
	}
	b := c.N(bits + 1)
	hi := 1 << b
	if hi > n {
		hi = n
	}
	return c.N(hi)
}
