package util

// ---------------------------------------------------------------- container/list (trusted)
// lists: who owns each element, and the place of the element among them
sort Lists
ghost lists Lists
fun lowner(Lists, *list.Element) *list.List
fun lrank(Lists, *list.Element) int
fun llen(Lists, *list.List) int
fun lnext(Lists, *list.Element) *list.Element
fun lfront(Lists, *list.List) *list.Element
fun lback(Lists, *list.List) *list.Element
// the front and the successor
axiom trusted l_front = forall h Lists, l *list.List, e *list.Element :: {lfront(h, l), lowner(h, e)} (e != nil && l != nil && lowner(h, e) == l) ==> (lfront(h, l) != nil && lrank(h, lfront(h, l)) <= lrank(h, e))
axiom trusted l_front2 = forall h Lists, l *list.List :: {lfront(h, l)} lfront(h, l) != nil ==> lowner(h, lfront(h, l)) == l
axiom trusted l_back = forall h Lists, l *list.List, e *list.Element :: {lback(h, l), lowner(h, e)} (e != nil && l != nil && lowner(h, e) == l) ==> (lback(h, l) != nil && lrank(h, lback(h, l)) >= lrank(h, e))
axiom trusted l_back2 = forall h Lists, l *list.List :: {lback(h, l)} lback(h, l) != nil ==> lowner(h, lback(h, l)) == l
axiom trusted l_rank = forall h Lists, e *list.Element, g *list.Element :: {lrank(h, e), lrank(h, g)} (e != nil && g != nil && lowner(h, e) == lowner(h, g) && lowner(h, e) != nil && lrank(h, e) == lrank(h, g)) ==> e == g
axiom trusted l_len = forall h Lists, l *list.List :: {llen(h, l)} l != nil ==> (llen(h, l) >= 0 && (llen(h, l) == 0 <==> lfront(h, l) == nil))
axiom trusted l_next = forall h Lists, e *list.Element :: {lnext(h, e)} (e != nil && lowner(h, e) != nil && lnext(h, e) != nil) ==> (lowner(h, lnext(h, e)) == lowner(h, e) && lrank(h, e) < lrank(h, lnext(h, e)))
axiom trusted l_next2 = forall h Lists, e *list.Element, g *list.Element :: {lnext(h, e), lowner(h, g)} (e != nil && g != nil && lowner(h, e) != nil && lowner(h, g) == lowner(h, e) && lrank(h, e) < lrank(h, g)) ==> (lnext(h, e) != nil && lrank(h, lnext(h, e)) <= lrank(h, g))

extern container/list.New() (l)
  modifies ghost lists
  ensures l != nil && fresh(l) && llen(lists, l) == 0
  ensures forall e *list.Element :: {lowner(lists, e)} lowner(lists, e) == lowner(old(lists), e) && (e != nil ==> lowner(lists, e) != l)
  ensures forall e *list.Element :: {lrank(lists, e)} lrank(lists, e) == lrank(old(lists), e)
  ensures forall k *list.List :: {llen(lists, k)} k != l ==> llen(lists, k) == llen(old(lists), k)

extern container/list.List.PushBack(l, v) (e)
  modifies ghost lists
  ensures e != nil && fresh(e) && lowner(lists, e) == l && e.Value == v && llen(lists, l) == llen(old(lists), l) + 1
  ensures forall g *list.Element :: {lowner(lists, g)} g != e ==> lowner(lists, g) == lowner(old(lists), g)
  ensures forall g *list.Element :: {lrank(lists, g)} g != e ==> lrank(lists, g) == lrank(old(lists), g)
  ensures forall g *list.Element :: {lowner(lists, g)} (g != nil && g != e && lowner(lists, g) == l) ==> lrank(lists, g) < lrank(lists, e)
  ensures forall k *list.List :: {llen(lists, k)} k != l ==> llen(lists, k) == llen(old(lists), k)

extern container/list.List.Remove(l, e) (v)
  requires e != nil
  modifies ghost lists
  ensures v == e.Value
  ensures lowner(old(lists), e) != l ==> lists == old(lists)
  ensures lowner(old(lists), e) == l ==> (lowner(lists, e) == nil && llen(lists, l) == llen(old(lists), l) - 1)
  ensures forall g *list.Element :: {lowner(lists, g)} g != e ==> lowner(lists, g) == lowner(old(lists), g)
  ensures forall g *list.Element :: {lrank(lists, g)} g != e ==> lrank(lists, g) == lrank(old(lists), g)
  ensures forall k *list.List :: {llen(lists, k)} k != l ==> llen(lists, k) == llen(old(lists), k)

extern container/list.List.MoveToBack(l, e)
  requires e != nil
  modifies ghost lists
  ensures lowner(old(lists), e) != l ==> lists == old(lists)
  ensures forall g *list.Element :: {lowner(lists, g)} lowner(lists, g) == lowner(old(lists), g)
  ensures forall g *list.Element :: {lrank(lists, g)} g != e ==> lrank(lists, g) == lrank(old(lists), g)
  ensures lowner(old(lists), e) == l ==> (forall g *list.Element :: {lowner(lists, g)} (g != nil && g != e && lowner(lists, g) == l) ==> lrank(lists, g) < lrank(lists, e))
  ensures forall k *list.List :: {llen(lists, k)} llen(lists, k) == llen(old(lists), k)

extern container/list.List.MoveToFront(l, e)
  requires e != nil
  modifies ghost lists
  ensures lowner(old(lists), e) != l ==> lists == old(lists)
  ensures forall g *list.Element :: {lowner(lists, g)} lowner(lists, g) == lowner(old(lists), g)
  ensures forall g *list.Element :: {lrank(lists, g)} g != e ==> lrank(lists, g) == lrank(old(lists), g)
  ensures lowner(old(lists), e) == l ==> (forall g *list.Element :: {lowner(lists, g)} (g != nil && g != e && lowner(lists, g) == l) ==> lrank(lists, g) > lrank(lists, e))
  ensures forall k *list.List :: {llen(lists, k)} llen(lists, k) == llen(old(lists), k)

extern container/list.List.PushFront(l, v) (e)
  modifies ghost lists
  ensures e != nil && fresh(e) && lowner(lists, e) == l && e.Value == v && llen(lists, l) == llen(old(lists), l) + 1
  ensures forall g *list.Element :: {lowner(lists, g)} g != e ==> lowner(lists, g) == lowner(old(lists), g)
  ensures forall g *list.Element :: {lrank(lists, g)} g != e ==> lrank(lists, g) == lrank(old(lists), g)
  ensures forall g *list.Element :: {lowner(lists, g)} (g != nil && g != e && lowner(lists, g) == l) ==> lrank(lists, g) > lrank(lists, e)
  ensures forall k *list.List :: {llen(lists, k)} k != l ==> llen(lists, k) == llen(old(lists), k)

extern container/list.List.Back(l) (e)
  pure
  ensures e == lback(lists, l)

extern container/list.List.Front(l) (e)
  pure
  ensures e == lfront(lists, l)
extern container/list.List.Len(l) (n)
  pure
  ensures n == llen(lists, l)
extern container/list.Element.Next(e) (g)
  pure
  requires e != nil
  ensures lowner(lists, e) != nil ==> g == lnext(lists, e)
  ensures lowner(lists, e) == nil ==> g == nil

// ---------------------------------------------------------------- ordered map
def ispair(v interface{}) = hastype(v, type(*KvPair)) && v.(*KvPair) != nil && allocated(v.(*KvPair))
def ekey(e *list.Element) = e.Value.(*KvPair).Key
def eval(e *list.Element) = e.Value.(*KvPair).Val
def listed(o *OrderedMap, e *list.Element) = e != nil && lowner(lists, e) == o.list
def om(o *OrderedMap) = o != nil && o.dict != nil && o.list != nil && allocated(o.list) && (forall k TPar :: {k in o.dict} k in o.dict ==> (listed(o, o.dict[k]) && ispair(o.dict[k].Value) && ekey(o.dict[k]) == k)) && (forall e *list.Element :: {lowner(lists, e)} listed(o, e) ==> (ispair(e.Value) && ekey(e) in o.dict && o.dict[ekey(e)] == e))

func NewOrderedMap() (o)
  property C12
  modifies ghost lists
  ensures om(o) && fresh(o) && fresh(o.dict) && fresh(o.list) && llen(lists, o.list) == 0
  ensures forall k TPar :: {k in o.dict} !(k in o.dict)
  ensures forall e *list.Element :: {lowner(lists, e)} lowner(lists, e) == lowner(old(lists), e)

func OrderedMap.HasKey(o, key) (b)
  property C12
  requires om(o)
  ensures b <==> key in o.dict

func OrderedMap.Get(o, key) (v)
  property C12
  requires om(o)
  ensures key in o.dict ==> v == eval(o.dict[key])

func OrderedMap.Set(o, key, val) (e)
  property C12
  requires om(o)
  modifies mapof(o.dict), ghost lists
  ensures om(o)
  ensures key in o.dict && o.dict[key] == e && eval(e) == val
  ensures forall k TPar :: {k in o.dict} k != key ==> ((k in o.dict <==> old(k in o.dict)) && (k in o.dict ==> (o.dict[k] == old(o.dict[k]) && eval(o.dict[k]) == old(eval(o.dict[k])) && lrank(lists, o.dict[k]) == lrank(old(lists), o.dict[k]) && lrank(lists, o.dict[k]) < lrank(lists, e))))
  ensures llen(lists, o.list) == llen(old(lists), o.list) + ite(old(key in o.dict), 0, 1)

func OrderedMap.Remove(o, key)
  property C12
  requires om(o)
  modifies mapof(o.dict), ghost lists
  ensures om(o) && !(key in o.dict)
  ensures forall k TPar :: {k in o.dict} k != key ==> ((k in o.dict <==> old(k in o.dict)) && (k in o.dict ==> (o.dict[k] == old(o.dict[k]) && eval(o.dict[k]) == old(eval(o.dict[k])) && lrank(lists, o.dict[k]) == lrank(old(lists), o.dict[k]))))
  ensures llen(lists, o.list) == llen(old(lists), o.list) - ite(old(key in o.dict), 1, 0)

// the entry that was set before all others (l_front)
func OrderedMap.Front(o) (e)
  property C12
  requires o != nil && o.list != nil
  ensures e == lfront(lists, o.list)

// ---------------------------------------------------------------- LRU cache
extern sync.RWMutex.Lock(m)
  pure
extern sync.RWMutex.Unlock(m)
  pure
extern sync.RWMutex.RLock(m)
  pure
extern sync.RWMutex.RUnlock(m)
  pure

def lru(c *LruCache) = c != nil && om(c.store) && c.clear >= 1

func NewLruCache(cap, clear) (c)
  property C12
  requires clear >= 0
  modifies ghost lists
  ensures lru(c) && fresh(c) && c.cap == cap && llen(lists, c.store.list) == 0
  ensures forall k TPar :: {k in c.store.dict} !(k in c.store.dict)
  // how many entries make room for a new one
  ensures (clear >= 1 && clear <= cap) ==> c.clear == clear

func LruCache.HasKey(c, key) (b)
  property C12
  requires lru(c)
  ensures b <==> key in c.store.dict

func LruCache.Get(c, key) (v)
  property C12
  requires lru(c)
  ensures key in c.store.dict ==> v == eval(c.store.dict[key])

func LruCache.Set(c, key, val)
  property C12
  requires lru(c)
  let s = c.store
  let full = !(key in c.store.dict) && llen(lists, c.store.list) + 1 > c.cap
  modifies mapof(c.store.dict), ghost lists
  ensures lru(c)
  ensures key in s.dict && eval(s.dict[key]) == val
  // the newest entry is the last
  ensures forall k TPar :: {k in s.dict} (k in s.dict && k != key) ==> lrank(lists, s.dict[k]) < lrank(lists, s.dict[key])
  // what remains of the others is as it was, in the same order
  ensures forall k TPar :: {k in s.dict} (k in s.dict && k != key) ==> (old(k in s.dict) && s.dict[k] == old(s.dict[k]) && eval(s.dict[k]) == old(eval(s.dict[k])) && lrank(lists, s.dict[k]) == lrank(old(lists), s.dict[k]))
  // nothing is evicted while there is room; otherwise the oldest are
  ensures !full ==> (forall k TPar :: {k in s.dict} old(k in s.dict) ==> k in s.dict)
  ensures forall k TPar, j TPar :: {k in s.dict, j in s.dict} (old(k in s.dict) && !(k in s.dict) && j in s.dict && j != key) ==> lrank(old(lists), old(s.dict[k])) < lrank(old(lists), old(s.dict[j]))
  ensures full ==> llen(lists, s.list) == ite(old(llen(lists, c.store.list)) > c.clear, old(llen(lists, c.store.list)) - c.clear, 0) + 1
  // within its capacity
  ensures (c.cap >= 1 && old(llen(lists, c.store.list)) <= c.cap) ==> llen(lists, s.list) <= c.cap
  loop 0
    invariant lru(c) && llen(lists, s.list) <= old(llen(lists, c.store.list))
    invariant forall k TPar :: {k in s.dict} k in s.dict ==> (old(k in s.dict) && s.dict[k] == old(s.dict[k]) && eval(s.dict[k]) == old(eval(s.dict[k])) && lrank(lists, s.dict[k]) == lrank(old(lists), s.dict[k]))
    invariant forall k TPar, j TPar :: {k in s.dict, j in s.dict} (old(k in s.dict) && !(k in s.dict) && j in s.dict) ==> lrank(old(lists), old(s.dict[k])) < lrank(old(lists), old(s.dict[j]))
    invariant 0 <= i && llen(lists, s.list) == ite(old(llen(lists, c.store.list)) > i, old(llen(lists, c.store.list)) - i, 0)
    invariant i <= c.clear
