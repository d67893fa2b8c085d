package util

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"testing"
)

// TestVerifC13: slice and map helpers against direct models.
func TestVerifC13(t *testing.T) {
	v := vNew(t, "C13")
	r := vRand()
	for n := 0; n < vPick(20000, 300000) && v.more(); n++ {
		a := make([]int, r.Intn(8))
		for i := range a {
			a[i] = r.Intn(5)
		}
		extra := r.Intn(3)
		mk := func() []int { // same contents, spare capacity
			b := make([]int, len(a), len(a)+extra)
			copy(b, a)
			return b
		}
		x := r.Intn(6)
		v.check("Includes", []interface{}{a, x}, func() string {
			w := false
			for _, y := range a {
				w = w || y == x
			}
			b := mk()
			if g := Includes(b, x); g != w {
				return fmt.Sprintf("Includes = %v, expected %v", g, w)
			}
			if !reflect.DeepEqual(b, mk()) {
				return "Includes changed its argument"
			}
			return ""
		})
		v.check("Copy", a, func() string {
			b := mk()
			c := Copy(b)
			if len(c) != len(b) {
				return fmt.Sprintf("copy has %d elements of %d", len(c), len(b))
			}
			for i := range c {
				if c[i] != b[i] {
					return fmt.Sprintf("copy differs at %d", i)
				}
			}
			for i := range b {
				b[i] += 100
			}
			b = append(b, 7)
			for i := range c {
				if c[i] != a[i] {
					return "a change of the original reaches the copy"
				}
				c[i] = -5
			}
			for i := range a {
				if b[i] != a[i]+100 {
					return "a change of the copy reaches the original"
				}
			}
			return ""
		})
		if len(a) > 0 {
			i, j := r.Intn(len(a)), r.Intn(len(a))
			v.check("Swap", []interface{}{a, i, j}, func() string {
				b, w := mk(), mk()
				tmp := w[i]
				w[i] = w[j]
				w[j] = tmp
				Swap(b, i, j)
				if !reflect.DeepEqual(b, w) {
					return fmt.Sprintf("got %v, expected %v", b, w)
				}
				return ""
			})
			v.check("RemoveAt", []interface{}{a, i}, func() string {
				b := mk()
				RemoveAt(&b, i)
				w := mk()
				w[i] = w[len(w)-1]
				w = w[:len(w)-1]
				if len(b) != len(w) {
					return fmt.Sprintf("got %v", b)
				}
				for k := range w {
					if w[k] != b[k] {
						return fmt.Sprintf("got %v, expected %v", b, w)
					}
				}
				return ""
			})
		}
		mm := func() map[int]int {
			m := map[int]int{}
			for i := 0; i+1 < len(a); i += 2 {
				m[a[i]] = a[i+1] * 10
			}
			return m
		}
		m := mm()
		st := map[int]int{}
		for i := r.Intn(4); i > 0; i-- {
			st[r.Intn(6)] = 1000 + r.Intn(9)
		}
		v.check("Merge", []interface{}{m, st}, func() string {
			w := mm()
			for k, x := range st {
				if _, ok := w[k]; !ok {
					w[k] = x
				}
			}
			st0 := fmt.Sprint(st)
			b := mm()
			Merge(b, st)
			if !reflect.DeepEqual(b, w) {
				return fmt.Sprintf("got %v, expected %v", b, w)
			}
			if fmt.Sprint(st) != st0 {
				return "the second map changed"
			}
			return ""
		})
		v.check("CloneMap", m, func() string {
			b := mm()
			c := CloneMap(b)
			if !reflect.DeepEqual(c, mm()) {
				return fmt.Sprintf("got %v, expected %v", c, mm())
			}
			c[77] = 1
			if !reflect.DeepEqual(b, mm()) {
				return "a change of the clone reaches the original"
			}
			return ""
		})
		v.check("Pick", m, func() string {
			b := mm()
			x := PickOne(b)
			ok := len(b) == 0 && x == 0
			for _, y := range b {
				ok = ok || x == y
			}
			if !ok {
				return fmt.Sprintf("PickOne gives %d", x)
			}
			k, y := PickOnePair(b)
			if z, has := b[k]; len(b) > 0 && (!has || z != y) {
				return fmt.Sprintf("PickOnePair gives %d, %d", k, y)
			}
			if !reflect.DeepEqual(b, mm()) {
				return "picking changed the map"
			}
			x = TakeOne(b)
			w := mm()
			gone := 0
			for k, y := range w {
				if z, has := b[k]; !has {
					gone++
					if x != y {
						return fmt.Sprintf("TakeOne gave %d but removed %d", x, y)
					}
				} else if z != y {
					return "TakeOne changed another entry"
				}
			}
			if len(w) > 0 && gone != 1 || len(w) == 0 && len(b) != 0 {
				return fmt.Sprintf("TakeOne removed %d entries", gone)
			}
			ks := Keys(w)
			sort.Ints(ks)
			if len(ks) != len(w) {
				return fmt.Sprintf("Keys gives %v", ks)
			}
			for i, k := range ks {
				if _, ok := w[k]; !ok || i > 0 && ks[i-1] == k {
					return fmt.Sprintf("Keys gives %v", ks)
				}
			}
			return ""
		})
		// nested objects
		depth := r.Intn(3) + 1
		obj := c13Obj(r.Intn, depth)
		var path []string
		for i := r.Intn(4); i > 0; i-- {
			path = append(path, string(rune('a'+r.Intn(3))))
		}
		v.check("GetByPath", []interface{}{obj, path}, func() string {
			var w interface{} = obj
			for _, k := range path {
				mv, ok := w.(map[string]interface{})
				if !ok {
					w = nil
					break
				}
				w = mv[k]
			}
			p0 := append([]string{}, path...)
			if g := GetByPath(obj, path); !reflect.DeepEqual(g, w) {
				return fmt.Sprintf("got %v, expected %v", g, w)
			}
			if !reflect.DeepEqual(p0, append([]string{}, path...)) {
				return "the path changed"
			}
			return ""
		})
		v.check("FlattenMap", obj, func() string {
			w := map[string]interface{}{}
			c13Flat(obj, "", w)
			if g := FlattenMap(obj); !reflect.DeepEqual(g, w) {
				return fmt.Sprintf("got %v, expected %v", g, w)
			}
			return ""
		})
		v.check("JsonToKeyPathAndVal", obj, func() string {
			text, err := json.Marshal(obj)
			if err != nil {
				return ""
			}
			back := map[string]interface{}{}
			if json.Unmarshal(text, &back) != nil {
				return ""
			}
			w := map[string]interface{}{}
			c13Flat(back, "", w)
			if g, err := JsonToKeyPathAndVal(string(text)); err != nil || !reflect.DeepEqual(g, w) {
				return fmt.Sprintf("got %v %v, expected %v", g, err, w)
			}
			return ""
		})
		src := c13Obj(r.Intn, depth)
		v.check("MergeMaps", []interface{}{obj, src}, func() string {
			extra := c13Obj(r.Intn, depth)
			w := c13Merge(c13Merge(obj, src), extra)
			d := c13Clone(obj).(map[string]interface{})
			MergeMaps(d, c13Clone(src).(map[string]interface{}), c13Clone(extra).(map[string]interface{}))
			if !reflect.DeepEqual(d, w) {
				return fmt.Sprintf("got %v, expected %v", d, w)
			}
			return ""
		})
		v.check("MergeMap", []interface{}{obj, src}, func() string {
			w := c13Merge(obj, src)
			d := c13Clone(obj).(map[string]interface{})
			MergeMap(d, c13Clone(src).(map[string]interface{}))
			if !reflect.DeepEqual(d, w) {
				return fmt.Sprintf("got %v, expected %v", d, w)
			}
			return ""
		})
	}
	v.done()
}

func c13Obj(rnd func(int) int, depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := rnd(4); i > 0; i-- {
		k := string(rune('a' + rnd(3)))
		m[k] = c13Val(rnd, depth)
	}
	return m
}

func c13Val(rnd func(int) int, depth int) interface{} {
	switch c := rnd(6); {
	case c <= 1 && depth > 0:
		return c13Obj(rnd, depth-1)
	case c == 2 && depth > 0:
		a := []interface{}{}
		for i := rnd(3); i > 0; i-- {
			a = append(a, c13Val(rnd, depth-1))
		}
		return a
	case c == 3:
		return nil
	case c == 4:
		return "s"
	}
	return rnd(100)
}

func c13Clone(x interface{}) interface{} {
	if m, ok := x.(map[string]interface{}); ok {
		n := map[string]interface{}{}
		for k, v := range m {
			n[k] = c13Clone(v)
		}
		return n
	}
	return x
}

func c13Flat(x interface{}, p string, out map[string]interface{}) {
	j := func(k string) string {
		if p == "" {
			return k
		}
		return p + "." + k
	}
	switch m := x.(type) {
	case map[string]interface{}:
		for k, v := range m {
			c13Flat(v, j(k), out)
		}
	case []interface{}:
		for i, v := range m {
			c13Flat(v, j(fmt.Sprint(i)), out)
		}
	default:
		out[p] = x
	}
}

// a source entry that is nil changes nothing
func c13Merge(d, s map[string]interface{}) map[string]interface{} {
	out := c13Clone(d).(map[string]interface{})
	for k, v := range s {
		dm, ok1 := out[k].(map[string]interface{})
		sm, ok2 := v.(map[string]interface{})
		if ok1 && ok2 {
			out[k] = c13Merge(dm, sm)
		} else if v != nil {
			out[k] = c13Clone(v)
		}
	}
	return out
}
