package h

// Results are slices the code under test returned. They are the caller's: one
// is written to, another kept, and what is kept stays as it was, whatever
// else is asked.
type Results struct {
	n    int
	kept []func() bool
}

// Forget forgets what is kept.
func (s *Results) Forget() { s.kept = nil }

// Keep notes that q is kept, and marks the result r, read from it, if one that
// was kept before has changed.
func Keep[T any](s *Results, q []T, un func(T) any, r []any) []any {
	bad := false
	for _, ok := range s.kept {
		bad = bad || !ok()
	}
	if len(q) > 0 && len(q) < 2000 {
		want := make([]any, len(q))
		for i, x := range q {
			want[i] = un(x)
		}
		s.kept = append(s.kept, func() bool {
			for i, x := range q {
				if un(x) != want[i] {
					return false
				}
			}
			return true
		})
		if len(s.kept) > 3 {
			s.kept = s.kept[1:]
		}
	}
	if bad {
		return append(r, L(-7778))
	}
	return r
}

// Take is like Keep, but every other time it writes to q instead.
func Take[T any](s *Results, q []T, un func(T) any, r []any) []any {
	if s.n++; s.n%2 == 0 {
		r = Keep(s, nil, un, r)
		var zero T
		q = q[:cap(q)]
		for i := range q {
			q[i] = zero
		}
		return r
	}
	return Keep(s, q, un, r)
}
