package simrt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// MapOver is the range clause over a map: the order is drawn from the decision stream instead of the runtime's own generator.
func MapOver[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		if len(keys) > 1 {
			ordered := true
			switch reflect.TypeFor[K]().Kind() {
			case reflect.Pointer, reflect.Interface, reflect.Chan, reflect.UnsafePointer:
				ordered = false // no order that would be the same in another process
			}
			txt := make(map[K]string, len(keys))
			for _, k := range keys {
				if !ordered {
					break
				}
				txt[k] = fmt.Sprintf("%v", k)
			}
			sort.SliceStable(keys, func(i, j int) bool { return txt[keys[i]] < txt[keys[j]] })
			if isActive() {
				x := uint64(decideSel())
				for i := len(keys) - 1; i > 0; i-- {
					x = mix(x + uint64(i))
					j := int(x % uint64(i+1))
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue // deleted meanwhile
			}
			if !yield(k, v) {
				return
			}
		}
	}
}
