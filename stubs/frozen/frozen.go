// Package frozen (model of github.com/arr-ai/frozen): persistent maps and sets as association
// lists. Iteration is in insertion order unless the check asks for an arbitrary order.
package frozen

import (
	"fmt"
	"sort"
)

// order returns a permutation of 0..n-1 chosen by the executor (identity unless map-order
// nondeterminism is switched on).
func order(n int) []int

type KeyValue[K, V any] struct {
	Key   K
	Value V
}

func KV[K, V any](k K, v V) KeyValue[K, V] { return KeyValue[K, V]{k, v} }

type Map[K any, V any] struct {
	kvs []KeyValue[K, V]
}

func NewMap[K any, V any](kvs ...KeyValue[K, V]) Map[K, V] {
	b := NewMapBuilder[K, V](len(kvs))
	for _, kv := range kvs {
		b.Put(kv.Key, kv.Value)
	}
	return b.Finish()
}

func NewMapFromKeys[K any, V any](keys Set[K], f func(key K) V) Map[K, V] {
	b := NewMapBuilder[K, V](keys.Count())
	for i := keys.Range(); i.Next(); {
		val := i.Value()
		b.Put(val, f(val))
	}
	return b.Finish()
}

func NewMapFromGoMap[K comparable, V any](m map[K]V) Map[K, V] {
	mb := NewMapBuilder[K, V](len(m))
	for k, v := range m {
		mb.Put(k, v)
	}
	return mb.Finish()
}

func (m Map[K, V]) find(key K) int {
	for i := range m.kvs {
		if any(m.kvs[i].Key) == any(key) {
			return i
		}
	}
	return -1
}

func (m Map[K, V]) IsEmpty() bool { return len(m.kvs) == 0 }
func (m Map[K, V]) Count() int    { return len(m.kvs) }
func (m Map[K, V]) Any() (key K, value V) {
	for i := m.Range(); i.Next(); {
		return i.Entry()
	}
	panic("empty map")
}
func (m Map[K, V]) With(key K, val V) Map[K, V] {
	i := m.find(key)
	n := len(m.kvs)
	if i < 0 {
		out := make([]KeyValue[K, V], n+1)
		copy(out, m.kvs)
		out[n] = KeyValue[K, V]{key, val}
		return Map[K, V]{out}
	}
	out := make([]KeyValue[K, V], n)
	copy(out, m.kvs)
	out[i].Value = val
	return Map[K, V]{out}
}
func (m Map[K, V]) Without(key K) Map[K, V] {
	i := m.find(key)
	if i < 0 {
		return m
	}
	out := make([]KeyValue[K, V], 0, len(m.kvs))
	out = append(out, m.kvs[:i]...)
	out = append(out, m.kvs[i+1:]...)
	return Map[K, V]{out}
}
func (m Map[K, V]) Has(key K) bool { return m.find(key) >= 0 }
func (m Map[K, V]) Get(key K) (_ V, _ bool) {
	if i := m.find(key); i >= 0 {
		return m.kvs[i].Value, true
	}
	return
}
func (m Map[K, V]) MustGet(key K) V {
	if val, has := m.Get(key); has {
		return val
	}
	panic(fmt.Sprintf("key not found: %v", key))
}
func (m Map[K, V]) GetElse(key K, deflt V) V {
	if val, has := m.Get(key); has {
		return val
	}
	return deflt
}
func (m Map[K, V]) GetElseFunc(key K, deflt func() V) V {
	if val, has := m.Get(key); has {
		return val
	}
	return deflt()
}
func (m Map[K, V]) Keys() Set[K] {
	var b SetBuilder[K]
	for i := m.Range(); i.Next(); {
		b.Add(i.Key())
	}
	return b.Finish()
}
func (m Map[K, V]) Values() Set[V] {
	var b SetBuilder[V]
	for i := m.Range(); i.Next(); {
		b.Add(i.Value())
	}
	return b.Finish()
}
func (m Map[K, V]) Project(keys ...K) Map[K, V] {
	var mb MapBuilder[K, V]
	for _, k := range keys {
		if v, has := m.Get(k); has {
			mb.Put(k, v)
		}
	}
	return mb.Finish()
}
func (m Map[K, V]) Where(pred func(key K, val V) bool) Map[K, V] {
	var b MapBuilder[K, V]
	for i := m.Range(); i.Next(); {
		if key, val := i.Entry(); pred(key, val) {
			b.Put(key, val)
		}
	}
	return b.Finish()
}
func MapMap[K, V, U any](m Map[K, V], f func(key K, val V) U) Map[K, U] {
	var b MapBuilder[K, U]
	for i := m.Range(); i.Next(); {
		key, val := i.Entry()
		b.Put(key, f(key, val))
	}
	return b.Finish()
}
func (m Map[K, V]) Merge(n Map[K, V], resolve func(key K, a, b V) V) Map[K, V] {
	out := m
	for i := n.Range(); i.Next(); {
		k, v := i.Entry()
		if a, has := out.Get(k); has {
			v = resolve(k, a, v)
		}
		out = out.With(k, v)
	}
	return out
}
func (m Map[K, V]) Update(n Map[K, V]) Map[K, V] {
	if m.IsEmpty() {
		return n
	}
	out := m
	for i := n.Range(); i.Next(); {
		k, v := i.Entry()
		out = out.With(k, v)
	}
	return out
}
func (m Map[K, V]) Equal(n Map[K, V]) bool {
	if m.Count() != n.Count() {
		return false
	}
	for _, kv := range m.kvs {
		v, has := n.Get(kv.Key)
		if !has || any(v) != any(kv.Value) {
			return false
		}
	}
	return true
}
func (m Map[K, V]) String() string { return fmt.Sprintf("%v", m) }
func (m Map[K, V]) Format(f fmt.State, verb rune) {
	fmt.Fprint(f, "(")
	for i, n := m.Range(), 0; i.Next(); n++ {
		if n > 0 {
			fmt.Fprint(f, ", ")
		}
		fmt.Fprintf(f, "%v", i.Key())
		fmt.Fprint(f, ": ")
		fmt.Fprintf(f, "%v", i.Value())
	}
	fmt.Fprint(f, ")")
}

type MapIterator[K, V any] struct {
	kvs []KeyValue[K, V]
	ord []int
	i   int
}

func (m Map[K, V]) Range() *MapIterator[K, V] {
	return &MapIterator[K, V]{kvs: m.kvs, ord: order(len(m.kvs)), i: -1}
}
func (i *MapIterator[K, V]) Next() bool {
	i.i++
	return i.i < len(i.ord)
}
func (i *MapIterator[K, V]) Key() K   { return i.kvs[i.ord[i.i]].Key }
func (i *MapIterator[K, V]) Value() V { return i.kvs[i.ord[i.i]].Value }
func (i *MapIterator[K, V]) Entry() (key K, value V) {
	e := i.kvs[i.ord[i.i]]
	return e.Key, e.Value
}

type MapBuilder[K any, V any] struct{ m Map[K, V] }

func NewMapBuilder[K any, V any](capacity int) *MapBuilder[K, V] { return &MapBuilder[K, V]{} }
func (b *MapBuilder[K, V]) Count() int                          { return b.m.Count() }
func (b *MapBuilder[K, V]) Put(key K, value V)                  { b.m = b.m.With(key, value) }
func (b *MapBuilder[K, V]) Remove(key K)                        { b.m = b.m.Without(key) }
func (b *MapBuilder[K, V]) Has(key K) bool                      { return b.m.Has(key) }
func (b *MapBuilder[K, V]) Get(key K) (V, bool)                 { return b.m.Get(key) }
func (b *MapBuilder[K, V]) Finish() Map[K, V] {
	m := b.m
	b.m = Map[K, V]{}
	return m
}

type Set[T any] struct{ es []T }

func NewSet[T any](values ...T) Set[T] {
	var s Set[T]
	for _, v := range values {
		s = s.With(v)
	}
	return s
}
func (s Set[T]) find(v T) int {
	for i := range s.es {
		if any(s.es[i]) == any(v) {
			return i
		}
	}
	return -1
}
func (s Set[T]) IsEmpty() bool { return len(s.es) == 0 }
func (s Set[T]) Count() int    { return len(s.es) }
func (s Set[T]) Has(v T) bool  { return s.find(v) >= 0 }
func (s Set[T]) With(v T) Set[T] {
	if s.find(v) >= 0 {
		return s
	}
	out := make([]T, len(s.es)+1)
	copy(out, s.es)
	out[len(s.es)] = v
	return Set[T]{out}
}
func (s Set[T]) Without(v T) Set[T] {
	i := s.find(v)
	if i < 0 {
		return s
	}
	out := make([]T, 0, len(s.es))
	out = append(out, s.es[:i]...)
	out = append(out, s.es[i+1:]...)
	return Set[T]{out}
}
func (s Set[T]) Elements() []T {
	result := make([]T, 0, len(s.es))
	for _, i := range order(len(s.es)) {
		result = append(result, s.es[i])
	}
	return result
}
func (s Set[T]) OrderedElements(less func(a, b T) bool) []T {
	out := s.Elements()
	sort.Slice(out, func(i, j int) bool { return less(out[i], out[j]) })
	return out
}
func (s Set[T]) Any() T {
	for i := s.Range(); i.Next(); {
		return i.Value()
	}
	panic("empty set")
}
func (s Set[T]) Where(pred func(elem T) bool) Set[T] {
	var out Set[T]
	for i := s.Range(); i.Next(); {
		if v := i.Value(); pred(v) {
			out = out.With(v)
		}
	}
	return out
}
func (s Set[T]) Union(t Set[T]) Set[T] {
	for _, e := range t.es {
		s = s.With(e)
	}
	return s
}
func (s Set[T]) Intersection(t Set[T]) Set[T] { return s.Where(t.Has) }
func (s Set[T]) Difference(t Set[T]) Set[T] {
	return s.Where(func(e T) bool { return !t.Has(e) })
}
func (s Set[T]) IsSubsetOf(t Set[T]) bool {
	for _, e := range s.es {
		if !t.Has(e) {
			return false
		}
	}
	return true
}
func (s Set[T]) Equal(t Set[T]) bool { return s.Count() == t.Count() && s.IsSubsetOf(t) }
func (s Set[T]) String() string      { return fmt.Sprintf("%v", s) }
func (s Set[T]) Format(f fmt.State, verb rune) {
	fmt.Fprint(f, "{")
	for i, n := s.Range(), 0; i.Next(); n++ {
		if n > 0 {
			fmt.Fprint(f, ", ")
		}
		fmt.Fprintf(f, "%v", i.Value())
	}
	fmt.Fprint(f, "}")
}

type Iterator[T any] struct {
	es  []T
	ord []int
	i   int
}

func (s Set[T]) Range() *Iterator[T] {
	return &Iterator[T]{es: s.es, ord: order(len(s.es)), i: -1}
}
func (i *Iterator[T]) Next() bool {
	i.i++
	return i.i < len(i.ord)
}
func (i *Iterator[T]) Value() T { return i.es[i.ord[i.i]] }

type SetBuilder[T any] struct{ s Set[T] }

func NewSetBuilder[T any](capacity int) *SetBuilder[T] { return &SetBuilder[T]{} }
func (b *SetBuilder[T]) Count() int                    { return b.s.Count() }
func (b *SetBuilder[T]) Add(v T)                       { b.s = b.s.With(v) }
func (b *SetBuilder[T]) Remove(v T)                    { b.s = b.s.Without(v) }
func (b *SetBuilder[T]) Has(v T) bool                  { return b.s.Has(v) }
func (b *SetBuilder[T]) Finish() Set[T] {
	s := b.s
	b.s = Set[T]{}
	return s
}
