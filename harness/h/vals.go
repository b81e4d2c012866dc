package h

import "strconv"

// Values of interface type: nil, typed nils, values that cannot be compared,
// pointers.  A container has no business looking into what it holds.

// MkAny makes the value that stands for x; the one for null is nil.
func MkAny(x, null int) any {
	switch {
	case x == null:
		return nil
	case x == null+1:
		return []int(nil)
	case x == null+2:
		return (*int)(nil)
	case x%3 == 0:
		return []int{x}
	case x%3 == 1:
		return x
	default:
		return &x
	}
}

// UnAny is the number v stands for.
func UnAny(v any, null int) int {
	switch v := v.(type) {
	case nil:
		return null
	case []int:
		if v == nil {
			return null + 1
		}
		if len(v) == 1 {
			return v[0]
		}
	case *int:
		if v == nil {
			return null + 2
		}
		return *v
	case int:
		return v
	}
	return -98765
}

// MkCmp is like MkAny, with values that can be compared with ==.
func MkCmp(x, null int) any {
	switch {
	case x == null:
		return nil
	case x == null+1:
		return (*int)(nil)
	case x%3 == 0:
		return [1]int{x}
	case x%3 == 1:
		return x
	default:
		return strconv.Itoa(x)
	}
}

// UnCmp is the number v stands for.
func UnCmp(v any, null int) int {
	switch v := v.(type) {
	case nil:
		return null
	case *int:
		return null + 1
	case [1]int:
		return v[0]
	case int:
		return v
	case string:
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return -98765
}

// AnyMap is a map with values of interface type as one with numbers.
type AnyMap[K any] struct {
	M interface {
		Put(K, any)
		Get(K) (any, bool)
		Remove(K)
		Each(func(K, any))
		Size() int
	}
	Null int
}

func (m AnyMap[K]) Put(k K, v int) { m.M.Put(k, MkAny(v, m.Null)) }
func (m AnyMap[K]) Get(k K) (int, bool) {
	v, ok := m.M.Get(k)
	if !ok && v == nil {
		return 0, false
	}
	return UnAny(v, m.Null), ok
}
func (m AnyMap[K]) Remove(k K) { m.M.Remove(k) }
func (m AnyMap[K]) Each(fn func(K, int)) {
	m.M.Each(func(k K, v any) { fn(k, UnAny(v, m.Null)) })
}
func (m AnyMap[K]) Size() int   { return m.M.Size() }
func (m AnyMap[K]) Height() int { return m.M.(interface{ Height() int }).Height() }

// CmpKeys are keys of interface type.
func CmpKeys(null int) KeyKind[any] {
	un := func(k any) int { return UnCmp(k, null) }
	return KeyKind[any]{func(k int) any { return MkCmp(k, null) }, un, func(a, b any) bool { return un(a) < un(b) }}
}

// AnyKeys are keys of interface type, some of which cannot be compared with
// ==: only the functions a container is given know about them.
func AnyKeys(null int) KeyKind[any] {
	un := func(k any) int { return UnAny(k, null) }
	return KeyKind[any]{func(k int) any { return MkAny(k, null) }, un, func(a, b any) bool { return un(a) < un(b) }}
}
