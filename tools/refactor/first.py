import os, sys
os.chdir(sys.argv[1])  # a scratch copy of /repo, never /repo itself
import re,os
def sub(p,*pairs):
    s=open(p).read()
    for a,b in pairs:
        assert a in s,(p,a)
        s=s.replace(a,b)
    open(p,'w').write(s)
# avl: predecessor, iterative search
sub('avl/avl.go',('''			rightMinNode := n.right.findSmallest()
			n.key = rightMinNode.key
			n.value = rightMinNode.value
			n.right = n.right.remove(rightMinNode.key, less)''','''			m := n.left
			for m.right != nil {
				m = m.right
			}
			n.key, n.value = m.key, m.value
			n.left = n.left.remove(m.key, less)'''),
('''	if n == nil {
		return nil
	}
	if g.Compare(key, n.key, less) < 0 {
		return n.left.search(key, less)
	} else if g.Compare(key, n.key, less) > 0 {
		return n.right.search(key, less)
	} else {
		return n
	}''','''	for n != nil {
		if less(key, n.key) {
			n = n.left
		} else if less(n.key, key) {
			n = n.right
		} else {
			break
		}
	}
	return n'''))
# hashmap: other growth and shrink policy, backwards iteration
sub('hashmap/map.go',('m.length >= m.capacity/2','4*(m.length+1) > 3*m.capacity'),('''	if m.length > 0 && m.length <= m.capacity/8 {
		m.resize(m.capacity / 2)
	}''',''),('''	for _, ent := range m.entries {
		if ent.filled {
			fn''','''	for i := len(m.entries) - 1; i >= 0; i-- {
		ent := m.entries[i]
		if ent.filled {
			fn'''),('capacity = pow2ceil(capacity)','capacity = pow2ceil(capacity + 7)'))
# heap: ternary
sub('heap/heap.go',('left, right := 2*i+1, 2*i+2','left, right := 3*i+1, 3*i+2'),('''			j = right
		}
''','''			j = right
		}
		if third := right + 1; third < len(h) && less(h[third], h[j]) {
			j = third
		}
'''),('(i - 1) / 2','(i - 1) / 3'),('for i := n/2 - 1; i >= 0; i--','for i := n - 1; i >= 0; i--'))
# btree: smaller nodes
sub('btree/btree.go',('maxChildren = 64','maxChildren = 6'))
# ulist: merge small blocks on removal; halve blocks
sub('ulist/ulist.go',('''	if iter.index == len(iter.node.Value) && iter.node.Next''','''	if n := iter.node.Next; n != nil && len(iter.node.Value)+len(n.Value) <= ul.entriesPerBlock {
		iter.node.Value = append(iter.node.Value, n.Value...)
		ul.ll.Remove(n)
	}
	if iter.index == len(iter.node.Value) && iter.node.Next'''))
# rope: one leaf always
sub('rope/rope.go',('if n.length > SplitLength {','if n.length > 3*SplitLength+5 {'))
s=open('rope/rope.go').read()
s=s.replace('''		if pos < leftLength {
			n.left''','''		if pos <= leftLength {
			n.left''').replace('''	s := join(a, b)
	for _, n := range more {
		s = join(s, n)
	}
	return s''','''	if len(more) == 0 {
		return join(a, b)
	}
	return join(a, Join(b, more[0], more[1:]...))''')
open('rope/rope.go','w').write(s)
# cache
sub('cache/cache.go',('''	entry := t.lru.Back.Value
	if t.evictCb != nil {
		t.evictCb(entry.Key, entry.Val)
	}
	t.Remove(entry.Key)''','''	kv := t.lru.Back.Value
	if cb := t.evictCb; cb != nil {
		cb(kv.Key, kv.Val)
	}
	if n := t.table[kv.Key]; n != nil {
		delete(t.table, kv.Key)
		t.lru.Remove(n)
	}'''))
# queue as slice
open('queue/queue.go','w').write('''// Package queue provides an implementation of a First In First Out (FIFO)
// queue.
package queue

// Queue is a simple First In First Out (FIFO) queue.
type Queue[T any] struct {
	items []T
}

func New[T any]() *Queue[T] { return &Queue[T]{} }

func Of[S ~[]E, E any](slice S) *Queue[E] {
	return &Queue[E]{append([]E(nil), slice...)}
}

func (q *Queue[T]) Len() int { return len(q.items) }
func (q *Queue[T]) Enqueue(value T) { q.items = append(q.items, value) }
func (q *Queue[T]) Dequeue() T {
	value, ok := q.TryDequeue()
	if !ok {
		panic("queue: tried to dequeue from an empty queue")
	}
	return value
}
func (q *Queue[T]) TryDequeue() (v T, ok bool) {
	if len(q.items) > 0 {
		v, ok = q.items[0], true
		q.items = q.items[1:]
	}
	return
}
func (q *Queue[T]) DequeueAll() []T {
	r := q.PeekAll()
	q.items = nil
	return r
}
func (q *Queue[T]) Peek() T {
	if q.Empty() {
		panic("queue: tried to peek an empty queue")
	}
	return q.items[0]
}
func (q *Queue[T]) TryPeek() (v T, ok bool) {
	if len(q.items) > 0 {
		v, ok = q.items[0], true
	}
	return
}
func (q *Queue[T]) PeekAll() []T { return append([]T{}, q.items...) }
func (q *Queue[T]) Empty() bool { return len(q.items) == 0 }
func (q *Queue[T]) Clear() { q.items = nil }
func (q *Queue[T]) Copy() *Queue[T] { return Of(q.items) }
func (q *Queue[T]) Each(fn func(t T)) {
	for _, v := range q.items {
		fn(v)
	}
}
''')
# helpers
sub('generic.go')
