package util

import (
	"fmt"
	"math/rand"
	"testing"
)

// the entries of an ordered map in its own order
func c12Entries[V any](o *OrderedMap[string, V]) (ks []string, vs []V) {
	for e := o.Front(); e != nil; e = e.Next() {
		p := e.Value.(*KvPair[string, V])
		ks = append(ks, p.Key)
		vs = append(vs, p.Val)
	}
	return
}

func c12Map(r *rand.Rand) string {
	o := NewOrderedMap[string, int]()
	var ks []string
	ref := map[string]int{}
	log := ""
	for i := 0; i < 1+r.Intn(25); i++ {
		k := string(rune('a' + r.Intn(5)))
		at := -1
		for j := range ks {
			if ks[j] == k {
				at = j
			}
		}
		switch r.Intn(4) {
		case 0, 1:
			x := r.Intn(100)
			log += fmt.Sprintf("set %s %d;", k, x)
			o.Set(k, x)
			if at >= 0 {
				ks = append(ks[:at:at], ks[at+1:]...)
			}
			ks = append(ks, k)
			ref[k] = x
		case 2:
			log += "remove " + k + ";"
			o.Remove(k)
			if at >= 0 {
				ks = append(ks[:at:at], ks[at+1:]...)
			}
			delete(ref, k)
		case 3:
			if o.HasKey(k) != (at >= 0) || o.Get(k) != ref[k] {
				return log + "get " + k
			}
		}
		gk, gv := c12Entries(o)
		if fmt.Sprint(gk) != fmt.Sprint(ks) {
			return fmt.Sprintf("%s: keys are %v, not %v", log, gk, ks)
		}
		for j, k := range gk {
			if gv[j] != ref[k] || o.Get(k) != ref[k] || !o.HasKey(k) {
				return fmt.Sprintf("%s: value of %s", log, k)
			}
		}
	}
	return ""
}

func c12Lru(r *rand.Rand) string {
	cap, clear := 1+r.Intn(7), r.Intn(8)
	c := NewLruCache[string, int](cap, clear)
	room := clear
	if room == 0 || room > cap {
		room = cap / 3
		if room < 1 {
			room = 1
		}
	}
	var ks []string
	ref := map[string]int{}
	log := fmt.Sprintf("cap %d clear %d;", cap, clear)
	for i := 0; i < 1+r.Intn(40); i++ {
		k := string(rune('a' + r.Intn(10)))
		at := -1
		for j := range ks {
			if ks[j] == k {
				at = j
			}
		}
		if r.Intn(3) > 0 {
			x := r.Intn(100)
			log += fmt.Sprintf("set %s %d;", k, x)
			c.Set(k, x)
			if at >= 0 {
				ks = append(ks[:at:at], ks[at+1:]...)
			} else if len(ks)+1 > cap {
				for j := 0; j < room && len(ks) > 0; j++ {
					delete(ref, ks[0])
					ks = ks[1:]
				}
			}
			ks = append(ks[:len(ks):len(ks)], k)
			ref[k] = x
		}
		for _, q := range "abcdefghij" {
			x, ok := ref[string(q)]
			if c.HasKey(string(q)) != ok || (ok && c.Get(string(q)) != x) {
				return fmt.Sprintf("%s: %c is held: %v, expected %v", log, q, c.HasKey(string(q)), ok)
			}
		}
		gk, _ := c12Entries(c.store)
		if fmt.Sprint(gk) != fmt.Sprint(ks) {
			return fmt.Sprintf("%s: keys are %v, not %v", log, gk, ks)
		}
	}
	return ""
}

func TestVerifC12(t *testing.T) {
	v := vNew(t, "C12")
	defer v.done()
	r := vRand()
	for i := 0; i < vPick(10000, 200000) && v.more(); i++ {
		s := r.Int63()
		v.check("map", s, func() string { return c12Map(rand.New(rand.NewSource(s))) })
		v.check("lru", s, func() string { return c12Lru(rand.New(rand.NewSource(s))) })
	}
}
