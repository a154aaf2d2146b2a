package main

type Rng struct{ s uint64 }

func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *Rng) Range(a, b int) int      { return a + r.N(b-a+1) }
func (r *Rng) P(pct int) bool          { return r.N(100) < pct }
func (r *Rng) F() float64              { return float64(r.U()>>11) / (1 << 53) }
func (r *Rng) Pick(s ...string) string { return s[r.N(len(s))] }
func (r *Rng) Fork() *Rng              { return &Rng{r.U()} }
