import os,re
import sys
R=sys.argv[1].rstrip('/')+'/'  # a scratch copy of /repo
def sub(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        assert s.count(a)==1,(f,a,s.count(a))
        s=s.replace(a,b)
    open(R+f,'w').write(s)
sub('interval/itree.go',
('''	rightMinNode := n.right.findSmallest()
	n.key = rightMinNode.key
	n.value = rightMinNode.value
	n.right, _, _ = n.right.remove(rightMinNode.key.low)
''','''	m := n.left
	for m.right != nil {
		m = m.right
	}
	n.key = m.key
	n.value = m.value
	n.left, _, _ = n.left.remove(m.key.low)
'''),
('''	if n == nil {
		return nil
	}

	if low < n.key.low {
		return n.left.search(low)
	} else if low > n.key.low {
		return n.right.search(low)
	} else {
		return n
	}
''','''	for n != nil && n.key.low != low {
		if low < n.key.low {
			n = n.left
		} else {
			n = n.right
		}
	}
	return n
'''),
('''	if key.low >= n.max {
		return result
	}

	result = n.left.overlaps(key, result)

	if overlaps(n.key, key) {
		result = append(result, newKV(n))
	}

	if key.high <= n.key.low {
		return result
	}

	result = n.right.overlaps(key, result)
	return result
''','''	n.each(func(low, high I, v V) {
		if overlaps(intrvl[I]{low, high}, key) {
			result = append(result, KV[I, V]{low, high, v})
		}
	})
	return result
'''),
('''func (n *node[I, V]) findSmallest() *node[I, V] {
	if n.left != nil {
		return n.left.findSmallest()
	} else {
		return n
	}
}
''',''))
sub('trie/trie.go',
('''	queue = t.collect(x.left, prefix, queue)
	if x.valid {
		queue = append(queue, string(append(prefix, x.c)))
	}
	queue = t.collect(x.mid, append(prefix, x.c), queue)
	return t.collect(x.right, prefix, queue)
''','''	s := append(append(make([]byte, 0, len(prefix)+1), prefix...), x.c)
	queue = t.collect(x.left, prefix, queue)
	if x.valid {
		queue = append(queue, string(s))
	}
	queue = t.collect(x.mid, s, queue)
	return t.collect(x.right, prefix, queue)
'''),
('''	if n.right == nil {
		return n.left
	}
	if n.left == nil {
		return n.right
	}

	deleted := n
	n = deleted.right.minChild()
	n.right = deleted.right.deleteMinChild()
	n.left = deleted.left
	return n
''','''	if n.left == nil {
		return n.right
	}
	if n.right != nil {
		m := n.left
		for m.right != nil {
			m = m.right
		}
		m.right = n.right
	}
	return n.left
'''),
('''	if !t.Contains(key) {
		t.n++
	}
	t.root = t.put(t.root, key, val, 0)
''','''	p := &t.root
	for d := 0; ; {
		if *p == nil {
			*p = &node[V]{c: key[d]}
		}
		x := *p
		switch {
		case key[d] < x.c:
			p = &x.left
		case key[d] > x.c:
			p = &x.right
		case d == len(key)-1:
			if !x.valid {
				t.n++
			}
			x.val, x.valid = val, true
			return
		default:
			d++
			p = &x.mid
		}
	}
'''))
s=open(R+'trie/trie.go').read()
i=s.index('func (t *Trie[V]) put('); j=s.index('// Remove removes')
s=s[:i]+s[j:]
i=s.index('func (n *node[V]) minChild'); j=s.index('// New returns')
s=s[:i]+s[j:]
open(R+'trie/trie.go','w').write(s)
sub('array2d/array2d.go',
('''	firstRow := a.slice[x1+y1*a.width : 1+x2+y1*a.width]
	fill(firstRow, value)
	for y := y1 + 1; y <= y2; y++ {
		copy(a.slice[x1+y*a.width:1+x2+y*a.width], firstRow)
	}
''','''	for y := y2; y >= y1; y-- {
		fill(a.RowSpan(x1, x2, y), value)
	}
'''),
('''	slice[0] = value
	for i := 1; i < len(slice); i += i {
		copy(slice[i:], slice[:i])
	}
''','''	for i := range slice {
		slice[i] = value
	}
'''),
('''	slice := make([]T, len(a.slice))
	copy(slice, a.slice)
''','''	slice := append([]T{}, a.slice...)
'''),
('''	for y, row := range jagged {
		if y >= height {
			break
		}
		copy(arr.Row(y), row)
	}
''','''	for y := 0; y < height && y < len(jagged); y++ {
		for x := 0; x < width && x < len(jagged[y]); x++ {
			arr.Set(x, y, jagged[y][x])
		}
	}
'''))
sub('bimap/bimap.go',
('''	if oldVal, ok := b.GetForward(key); ok {
		delete(b.reverse, oldVal)
	}
	if oldKey, ok := b.GetReverse(value); ok {
		delete(b.forward, oldKey)
	}
	if b.forward == nil {
		b.forward = make(map[K]V)
		b.reverse = make(map[V]K)
	}
''','''	if b.forward == nil || b.reverse == nil {
		b.forward = make(map[K]V)
		b.reverse = make(map[V]K)
	}
	b.RemoveForward(key)
	b.RemoveReverse(value)
'''),
('''	for k, v := range b.forward {
		f(k, v)
	}
''','''	for v, k := range b.reverse {
		f(k, v)
	}
'''),
('''	clear(b.forward)
	clear(b.reverse)
''','''	b.forward, b.reverse = nil, nil
'''))
s=open(R+'bimap/bimap.go').read()
i=s.index('func clear['); j=s.index('func shallowCopy')
open(R+'bimap/bimap.go','w').write(s[:i]+s[j:])
sub('generic.go',
('''	return Max(lo, Min(hi, x))
''','''	if x < lo {
		return lo
	} else if hi < x {
		return hi
	}
	return x
'''),
('''	return MaxFunc(lo, MinFunc(hi, x, less), less)
''','''	if less(x, lo) {
		return lo
	}
	if less(hi, x) {
		return hi
	}
	return x
'''),
('''	if a > b {
		return a
	}
	return b
''','''	if a < b {
		return b
	}
	return a
'''))
sub('set/set.go',
('''	for _, other := range others {
		for _, key := range s.Keys() {
			if !other.Has(key) {
				s.Remove(key)
			}
		}
	}
	return s
''','''	for _, key := range s.Keys() {
		for _, other := range others {
			if !other.Has(key) {
				s.Remove(key)
				break
			}
		}
	}
	return s
'''),
('''	return s.Intersection(other).Size() == 0
''','''	disjoint := true
	s.Each(func(key K) { disjoint = disjoint && !other.Has(key) })
	return disjoint
'''),
('''	return s.Union(to).Size() == s.Size()
''','''	return s.IsSubset(to)
'''),
('''	if s.Equal(to) {
		return false
	}
	return s.IsSubset(to)
''','''	return s.Size() < to.Size() && s.IsSubset(to)
'''))
sub('multimap/values.go',
('''	(*vs)[i] = (*vs)[len(*vs)-1]
	*vs = (*vs)[:len(*vs)-1]
''','''	*vs = append((*vs)[:i:i], (*vs)[i+1:]...)
'''),
('''	return *vs
''','''	return append([]V(nil), *vs...)
'''))
sub('multimap/avl.go',('''	m.size = 0
	m.keys = avl''','''	m.baseMultiMap = baseMultiMap{}
	m.keys = avl'''))
sub('prope/prope.go',
('''	holder := make([]V, 1)
	n.copySlice(holder, pos, pos+1)
	return holder[0]
''','''	for n.kind != tLeaf {
		if pos < n.left.length {
			n = n.left
		} else {
			pos -= n.left.length
			n = n.right
		}
	}
	return n.value[pos]
'''),
('''		pivot := n.length / 2
''','''		pivot := (n.length + 1) / 3
'''),
('''	if pos < n.left.length {
		changedNode''','''	if pos <= n.left.length {
		changedNode'''),
('''		return New(n.value[:i]), New(n.value[i:])
''','''		return New(append([]V{}, n.value[:i]...)), New(append([]V{}, n.value[i:]...))
'''),
('''	return changedNode
}

// SplitAt''','''	if changedNode.length >= JoinLength {
		if changedNode.left.length == 0 {
			return changedNode.right
		}
		if changedNode.right.length == 0 {
			return changedNode.left
		}
	}
	return changedNode
}

// SplitAt'''))
sub('list/list.go',
('''	n.Next = nil
	n.Prev = l.Back
	if l.Back != nil {
		l.Back.Next = n
	} else {
		l.Front = n
	}
	l.Back = n
''','''	if l.Back != nil {
		l.InsertAfter(l.Back, n)
		return
	}
	n.Next, n.Prev = nil, nil
	l.Front, l.Back = n, n
'''))
sub('stack/stack.go',
('''	s.entries = s.entries[:len(s.entries)-1]
	return v
''','''	s.entries[len(s.entries)-1] = t
	s.entries = s.entries[:len(s.entries)-1]
	if len(s.entries) < cap(s.entries)/4 {
		s.entries = append([]T(nil), s.entries...)
	}
	return v
'''))
