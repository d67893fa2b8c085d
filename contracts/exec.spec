package exec

// the text and the number of a value
fun fltStr(float64) string
fun otherStr(interface{}) string
fun strNum(string) float64
fun strIsNum(string) bool

extern strconv.FormatFloat(f, fmt, prec, size) (s)
  pure
  requires fmt == 102 && prec == 0 - 1 && size == 64
  ensures s == fltStr(f)
extern strconv.ParseFloat(s, size) (f, err)
  pure
  requires size == 64
  ensures f == strNum(s)
  ensures err == nil <==> strIsNum(s)
fun idxkey(string, int) string
extern fmt.Sprintf(format, a) (s)
  ensures (format == "%v" && len(a) == 1) ==> s == otherStr(a[0])
  ensures (format == "%s[%d]" && len(a) == 2 && hastype(a[0], type(string)) && hastype(a[1], type(int))) ==> s == idxkey(a[0].(string), a[1].(int))

def toStr(v interface{}) = ite(hastype(v, type(float64)), fltStr(v.(float64)), ite(hastype(v, type(string)), v.(string), ite(hastype(v, type(bool)), ite(v.(bool), "true", "false"), otherStr(v))))
def isNum(v interface{}) = hastype(v, type(float64)) || (hastype(v, type(string)) && strIsNum(v.(string)))
def numOf(v interface{}) = ite(hastype(v, type(float64)), v.(float64), strNum(v.(string)))
def truthy(v interface{}) = v != nil && !(hastype(v, type(float64)) && (isZero(v.(float64)) || isNaN(v.(float64)))) && !(hastype(v, type(int)) && v.(int) == 0) && !(hastype(v, type(string)) && v.(string) == "") && !(hastype(v, type(bool)) && !v.(bool))

func ToNum(v) (r)
  property C11
  ensures isNum(v) ==> r == numOf(v)
  ensures !isNum(v) ==> r == nan()
func ToStr(v) (r)
  property C11
  ensures r == toStr(v)
func ToBool(v) (b)
  property C11
  ensures b <==> truthy(v)
func Add(a, b) (r)
  property C11
  ensures (hastype(a, type(string)) || hastype(b, type(string))) ==> (hastype(r, type(string)) && r.(string) == toStr(a) + toStr(b))
  ensures (!hastype(a, type(string)) && !hastype(b, type(string))) ==> hastype(r, type(float64))
  ensures (hastype(a, type(float64)) && hastype(b, type(float64))) ==> r.(float64) == a.(float64) + b.(float64)
func NewArgs(args) (r)
  property C11
  ensures fresh(r) && r.args == args
func Args.Get(a, i) (r)
  property C11
  requires i >= 0
  ensures i < len(a.args) ==> r == a.args[i]
  ensures i >= len(a.args) ==> r == nil
// a whole number i with 0 <= i < len(arr) names element i; anything else names none
func GetElem(obj, prop) (r)
  property C11
  ensures (obj == nil || prop == nil || !hastype(obj, type([]interface{})) || !isNum(prop)) ==> r == nil
  ensures (obj != nil && prop != nil && hastype(obj, type([]interface{})) && isNum(prop)) ==> (forall i int :: {obj.([]interface{})[i]} (0 <= i && i < len(obj.([]interface{})) && feq(numOf(prop), int2flt(i))) ==> r == obj.([]interface{})[i])
  ensures (obj != nil && prop != nil && hastype(obj, type([]interface{})) && isNum(prop)) ==> (r == nil || (exists i int :: {int2flt(i)} 0 <= i && i < len(obj.([]interface{})) && feq(numOf(prop), int2flt(i))))
func GetProp(obj, prop) (r)
  property C11
  ensures (obj == nil || prop == nil) ==> r == nil
  ensures (prop != nil && hastype(obj, type([]interface{})) && isNum(prop)) ==> (forall i int :: {obj.([]interface{})[i]} (0 <= i && i < len(obj.([]interface{})) && feq(numOf(prop), int2flt(i))) ==> r == obj.([]interface{})[i])
  ensures (prop != nil && hastype(obj, type([]interface{}))) ==> (r == nil || (isNum(prop) && (exists i int :: {int2flt(i)} 0 <= i && i < len(obj.([]interface{})) && feq(numOf(prop), int2flt(i)))))
  ensures (hastype(obj, type(map[string]interface{})) && prop != nil) ==> r == obj.(map[string]interface{})[toStr(prop)]
  ensures (!hastype(obj, type(map[string]interface{})) && !hastype(obj, type([]interface{}))) ==> r == nil
func NewBuiltinFn(this, fn) (r)
  property C11
  ensures fresh(r) && r.this == this && r.fn == fn
