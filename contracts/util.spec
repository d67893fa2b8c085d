package util

// unsafe string/byte-slice view: trusted
func Str2bytes(s) (b)
  trusted
  ensures len(b) == len(s) && view(arr(b)) == s && off(b) == 0 && (forall k int :: {b[k]} (0 <= k && k < len(s)) ==> b[k] == s[k])

func Swap(arr, i, j)
  property C13
  requires 0 <= i && i < len(arr) && 0 <= j && j < len(arr)
  modifies elems(arr)
  ensures arr[i] == old(arr[j]) && arr[j] == old(arr[i])
  ensures forall k int :: {arr[k]} (0 <= k && k < len(arr) && k != i && k != j) ==> arr[k] == old(arr[k])

func RemoveAt(arr, i)
  property C13
  requires arr != nil && 0 <= i && i < len(deref(arr))
  modifies deref(arr), elems(deref(arr))
  ensures len(deref(arr)) == old(len(deref(arr))) - 1
  ensures forall k int :: {deref(arr)[k]} (0 <= k && k < len(deref(arr)) && k != i) ==> deref(arr)[k] == old(deref(arr)[k])
  ensures i < len(deref(arr)) ==> deref(arr)[i] == old(deref(arr)[len(deref(arr)) - 1])

func Includes(arr, v) (b)
  property C13
  ensures b <==> (exists k int :: {arr[k]} 0 <= k && k < len(arr) && arr[k] == v)
  loop 0
    invariant forall k int :: {arr[k]} (0 <= k && k <= $rangeindex) ==> arr[k] != v

func Copy(arr) (r)
  property C13
  ensures len(r) == len(arr)
  ensures fresh(arr(r))
  ensures forall k int :: {r[k]} (0 <= k && k < len(r)) ==> r[k] == arr[k]

func Merge(src, stuff)
  property C13
  requires src != nil && src != stuff
  modifies mapof(src)
  ensures forall k TPar :: {k in src} k in src <==> (old(k in src) || k in stuff)
  ensures forall k TPar :: {src[k]} (old(k in src) ==> src[k] == old(src[k])) && ((!old(k in src) && k in stuff) ==> src[k] == stuff[k])
  loop 0
    invariant forall k TPar :: {$visited[k]} $visited[k] ==> k in stuff
    invariant forall k TPar :: {k in src} k in src <==> (old(k in src) || $visited[k])
    invariant forall k TPar :: {src[k]} (old(k in src) ==> src[k] == old(src[k])) && ((!old(k in src) && $visited[k]) ==> src[k] == stuff[k])

func CloneMap(m) (r)
  property C13
  ensures fresh(r)
  ensures forall k TPar :: {k in r} k in r <==> k in m
  ensures forall k TPar :: {r[k]} k in m ==> r[k] == m[k]
  loop 0
    invariant forall k TPar :: {$visited[k]} $visited[k] ==> k in m
    invariant forall k TPar :: {k in nm} k in nm <==> $visited[k]
    invariant forall k TPar :: {nm[k]} $visited[k] ==> nm[k] == m[k]

func PickOne(sets) (v)
  property C13
  ensures len(sets) > 0 ==> (exists k TPar :: {sets[k]} k in sets && v == sets[k])

func PickOnePair(sets) (k, v)
  property C13
  ensures len(sets) > 0 ==> (k in sets && v == sets[k])

func TakeOne(sets) (v)
  property C13
  modifies mapof(sets)
  ensures old(len(sets)) > 0 ==> (exists j TPar :: {old(sets[j])} old(j in sets) && v == old(sets[j]) && !(j in sets) && (forall k TPar :: {k in sets} k != j ==> ((k in sets <==> old(k in sets)) && sets[k] == old(sets[k]))))

// reinterprets the bytes in place (unsafe)
func Bytes2str(b) (s)
  trusted
  requires b != nil
  ensures len(s) == len(deref(b))
  ensures forall i int :: {s[i]} (0 <= i && i < len(s)) ==> s[i] == deref(b)[i]

// tells nil pointers by reflection
func IsNilPtr(v) (b)
  trusted
  pure
  ensures v == nil ==> b
  ensures b ==> (v == nil || nilptr(v))
  ensures hastype(v, type(*parser.TypInfo)) ==> (b <==> v.(*parser.TypInfo) == nil)
  ensures hastype(v, type(*parser.ClsTypInfo)) ==> (b <==> v.(*parser.ClsTypInfo) == nil)
