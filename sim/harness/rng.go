package main

// R is the harness's only source of randomness (splitmix64).
type R struct{ s uint64 }

func newR(seed uint64, stream string) *R {
	h := uint64(14695981039346656037)
	for i := 0; i < len(stream); i++ {
		h = (h ^ uint64(stream[i])) * 1099511628211
	}
	r := &R{seed*0x9e3779b97f4a7c15 ^ h}
	r.u64()
	return r
}

func (r *R) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// n is uniform in [0,k).
func (r *R) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(r.u64() % uint64(k))
}

// in is uniform in [a,b].
func (r *R) in(a, b int) int { return a + r.n(b-a+1) }

// p is true with probability pct/100.
func (r *R) p(pct int) bool { return r.n(100) < pct }

func (r *R) pick(xs ...string) string { return xs[r.n(len(xs))] }

func (r *R) pickInt(xs ...int) int { return xs[r.n(len(xs))] }

// errno picks what a system call fails with: mostly the usual suspects, now and
// then something else that callers may treat in a way of its own.
func (r *R) errno(call string) string {
	usual := map[string][]string{
		"open":   {"ENOENT", "EACCES", "EMFILE", "ENFILE", "EIO"},
		"create": {"EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO"},
		"read":   {"EIO", "EIO", "ESTALE", "EACCES", "ETIMEDOUT"},
		"write":  {"EIO", "ENOSPC", "EDQUOT", "EFBIG"},
		"close":  {"EIO", "ENOSPC", "EDQUOT", "ESTALE"},
	}
	odd := map[string][]string{
		"open":   {"EPERM", "ELOOP", "ENXIO", "ENODEV", "EBUSY", "ETXTBSY", "EOVERFLOW", "ENOMEM", "EAGAIN", "ENAMETOOLONG", "EINVAL", "ESTALE", "ETIMEDOUT", "ENOTDIR"},
		"create": {"EPERM", "ELOOP", "ENXIO", "EDQUOT", "EBUSY", "ETXTBSY", "ENFILE", "ENOMEM", "EAGAIN", "ENAMETOOLONG", "EINVAL", "ESTALE", "EISDIR", "ENOENT"},
		"read":   {"EBUSY", "EINVAL", "ENOMEM", "EBADMSG", "ECONNRESET", "ENOTCONN", "EREMOTEIO", "EFAULT", "EPERM", "ENXIO", "EISDIR", "ESHUTDOWN"},
		"write":  {"EBUSY", "EINVAL", "ENOMEM", "EPERM", "EROFS", "ECONNRESET", "EREMOTEIO", "EFAULT", "ESTALE", "ETIMEDOUT", "ENXIO"},
		"close":  {"EAGAIN", "ENOMEM", "EREMOTEIO", "ETIMEDOUT", "EFBIG", "EACCES", "EBUSY"},
	}
	if _, ok := usual[call]; !ok {
		call = "write"
	}
	if r.p(65) {
		return r.pick(usual[call]...)
	}
	return r.pick(odd[call]...)
}
