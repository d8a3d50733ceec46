// Constructors, copies and accessors (C22); maps built from hash maps (C06)

for F,T in EmptyImmutableList, immutableListValue; EmptyMutableList, solidListValue; EmptyImmutableMap, immutableMapValue; EmptyMutableMap, sortedMapValue; EmptySparseList, sparseListValue
func F() (r)
  props C22
  ensures dyn(r, T) && len(r.(T)) == 0
end

func EmptyList(immutable) (r)
  props C22
  ensures if immutable then dyn(r, immutableListValue) && len(r.(immutableListValue)) == 0 else dyn(r, solidListValue) && len(r.(solidListValue)) == 0
func EmptyMap(immutable) (r)
  props C22
  ensures if immutable then dyn(r, immutableMapValue) && len(r.(immutableMapValue)) == 0 else dyn(r, sortedMapValue) && len(r.(sortedMapValue)) == 0

for F,T in ImmutableList, immutableListValue; MutableList, solidListValue; Tuple, solidListValue
func F(list) (r)
  props C22
  ensures dyn(r, T) && len(r.(T)) == len(list)
  ensures forall k int :: 0 <= k && k < len(list) ==> r.(T)[k] == old(list[k])
end
func Single(value) (r)
  props C22
  ensures dyn(r, solidListValue) && len(r.(solidListValue)) == 1 && r.(solidListValue)[0] == value

for F,T,E in ImmutableMapOf, immutableMapValue, immutableMapEntry; SortedMapOf, sortedMapValue, mutableMapEntry
func F(src) (r)
  props C22, C06
  ensures dyn(r, T) && len(r.(T)) == old(if src == nil then 0 else $mlen(src))
  ensures forall k int :: 0 <= k && k < len(r.(T)) ==> dyn(r.(T)[k], *E) && newat(as(r.(T)[k], *E))
  ensures forall k int :: 0 <= k && k < len(r.(T)) ==> src != nil && sel($mdom(src), ekey(r.(T)[k])) && evalue(r.(T)[k]) == sel($mval(src), ekey(r.(T)[k]))
  ensures src != nil ==> forall s string :: (forall k int :: 0 <= k && k < len(r.(T)) ==> ekey(r.(T)[k]) != s) ==> !sel($mdom(src), s)
  ensures forall i int, j int :: 0 <= i && i < j && j < len(r.(T)) ==> ekey(r.(T)[i]) < ekey(r.(T)[j])
  loopinv ?s []MapEntry, ?i int, ?g iter: i == $rcnt(g) && len(s) == (if src == nil then 0 else $mlen(src))
  loopinv ?s []MapEntry, ?i int: forall k int :: 0 <= k && k < i ==> dyn(s[k], *E) && newat(as(s[k], *E))
  loopinv ?s []MapEntry, ?i int, ?g iter: forall k int :: 0 <= k && k < i ==> sel($rvis(g), ekey(s[k])) && sel($mdom(src), ekey(s[k])) && evalue(s[k]) == sel($mval(src), ekey(s[k]))
  loopinv ?s []MapEntry, ?i int, ?g iter: forall x string :: (forall k int :: 0 <= k && k < i ==> ekey(s[k]) != x) ==> !sel($rvis(g), x)
  loopinv ?s []MapEntry, ?i int: forall k int, l int :: 0 <= k && k < l && l < i ==> ekey(s[k]) != ekey(s[l])
end

for F,T,E,I in ImmutableMap, immutableMapValue, MapEntry, sorted; SortedMap, sortedMapValue, MapEntry, sorted; SparseList, sparseListValue, ListItem, isorted
func F(src, isSorted) (r)
  option inline
  props C22
  requires isSorted ==> I(src)
  modifies if isSorted then nothing else elems(src)
  ensures dyn(r, T) && len(r.(T)) == len(src)
  ensures isSorted ==> forall k int :: 0 <= k && k < len(src) ==> r.(T)[k] == old(src[k])
  ensures forall x E :: (forall k int :: 0 <= k && k < len(src) ==> old(src[k]) != x) ==> forall k int :: 0 <= k && k < len(src) ==> r.(T)[k] != x
  ensures forall x E :: (forall k int :: 0 <= k && k < len(src) ==> r.(T)[k] != x) ==> forall k int :: 0 <= k && k < len(src) ==> old(src[k]) != x
end
for F in ImmutableMap; SortedMap
func F(src, isSorted) (r)
  requires entriesok(src)
end
func SparseList(src, isSorted) (r)
  requires itemsok(src)

func SparseListOf(list) (r)
  props C22
  ensures dyn(r, sparseListValue)
  ensures forall k int :: 0 <= k && k < len(r.(sparseListValue)) ==> dyn(r.(sparseListValue)[k], *mutableListItem) && newat(as(r.(sparseListValue)[k], *mutableListItem))
  ensures forall k int :: 0 <= k && k < len(r.(sparseListValue)) ==> 0 <= ikey(r.(sparseListValue)[k]) && ikey(r.(sparseListValue)[k]) < len(list)
  ensures forall k int :: 0 <= k && k < len(r.(sparseListValue)) ==> ivalue(r.(sparseListValue)[k]) != nil
  ensures forall k int, x int :: 0 <= k && k < len(r.(sparseListValue)) && ikey(r.(sparseListValue)[k]) == x ==> ivalue(r.(sparseListValue)[k]) == old(list[x])
  ensures forall i int, j int :: 0 <= i && i < j && j < len(r.(sparseListValue)) ==> ikey(r.(sparseListValue)[i]) < ikey(r.(sparseListValue)[j])
  ensures forall x int :: 0 <= x && x < len(list) && (forall k int :: 0 <= k && k < len(r.(sparseListValue)) ==> ikey(r.(sparseListValue)[k]) != x) ==> list[x] == nil
  loopinv ?s []ListItem: forall k int :: 0 <= k && k < len(s) ==> dyn(s[k], *mutableListItem) && newat(as(s[k], *mutableListItem)) && 0 <= ikey(s[k]) && ikey(s[k]) < #it && ivalue(s[k]) != nil
  loopinv ?s []ListItem: forall k int, x int :: 0 <= k && k < len(s) && ikey(s[k]) == x ==> ivalue(s[k]) == list[x]
  loopinv ?s []ListItem: forall k int, l int :: 0 <= k && k < l && l < len(s) ==> ikey(s[k]) < ikey(s[l])
  loopinv ?s []ListItem: forall x int :: 0 <= x && x < #it && (forall k int :: 0 <= k && k < len(s) ==> ikey(s[k]) != x) ==> list[x] == nil

macro elive(e MapEntry) bool = e != nil && (if dyn(e, *immutableMapEntry) then live(as(e, *immutableMapEntry)) else live(as(e, *mutableMapEntry)))
iface Map.Entries(this) (r)
  ensures [C22] forall k int :: 0 <= k && k < len(r) ==> elive(r[k])
  ensures [C22] sorted(r)
for T in immutableMapValue; sortedMapValue
iface Map.Entries(this) (r)
  ensures [C22] dyn(this, T) ==> len(r) == len(this.(T))
  ensures [C22] forall k int :: dyn(this, T) && 0 <= k && k < len(r) ==> ekey(r[k]) == ekey(this.(T)[k]) && evalue(r[k]) == evalue(this.(T)[k])
end

for F,T,E in ImmutableMapCopyOf, immutableMapValue, immutableMapEntry; SortedMapCopyOf, sortedMapValue, mutableMapEntry
func F(other) (r)
  props C22
  requires other != nil
  ensures dyn(r, T) && fresh(r.(T))
  ensures forall k int :: 0 <= k && k < len(r.(T)) ==> dyn(r.(T)[k], *E) && newat(as(r.(T)[k], *E))
  ensures dyn(other, immutableMapValue) ==> len(r.(T)) == len(other.(immutableMapValue))
  ensures forall k int :: dyn(other, immutableMapValue) && 0 <= k && k < len(r.(T)) ==> ekey(r.(T)[k]) == old(ekey(other.(immutableMapValue)[k])) && evalue(r.(T)[k]) == old(evalue(other.(immutableMapValue)[k]))
  ensures dyn(other, sortedMapValue) ==> len(r.(T)) == len(other.(sortedMapValue))
  ensures forall k int :: dyn(other, sortedMapValue) && 0 <= k && k < len(r.(T)) ==> ekey(r.(T)[k]) == old(ekey(other.(sortedMapValue)[k])) && evalue(r.(T)[k]) == old(evalue(other.(sortedMapValue)[k]))
  loopinv ?s []MapEntry: forall k int :: 0 <= k && k < #it ==> dyn(s[k], *E) && newat(as(s[k], *E))
  loopinv ?s []MapEntry, ?t []MapEntry: forall k int :: 0 <= k && k < #it ==> ekey(s[k]) == ekey(t[k]) && evalue(s[k]) == evalue(t[k])
end

func CopyOf(src) (r)
  props C22
  ensures fresh(r) && len(r) == len(src)
  ensures forall k int :: 0 <= k && k < len(src) ==> r[k] == src[k]

// scalars
for F,T,G in Long, longNumber, int64; Double, doubleNumber, float64; Boolean, boolValue, bool; Utf8, uft8String, string; Str, uft8String, string
func F(val) (r)
  option inline
  props C22
  ensures dyn(r, T) && r.(T) == val
func (n T) Object() (r)
  ensures [C22] dyn(r, G) && as(r, G) == n
end
func BigInt(val) (r)
  option inline
  props C22
  ensures dyn(r, bigIntNumber)
  ensures r.(bigIntNumber).Int > 0 && (if val == nil then newat(r.(bigIntNumber).Int) && $big(r.(bigIntNumber).Int) == 0 else r.(bigIntNumber).Int == val)
func Decimal(dec) (r)
  option inline
  props C22
  ensures dyn(r, decimalNumber) && r.(decimalNumber) == dec
func Raw(val, copyFlag) (r)
  option inline
  props C22
  requires arr(val) >= 0
  ensures dyn(r, rawString) && len(r.(rawString)) == len(val)
  ensures if copyFlag then fresh(r.(rawString)) else r.(rawString) == val
  ensures forall k int :: 0 <= k && k < len(val) ==> r.(rawString)[k] == val[k]
func Unknown(tagAndData) (r)
  option inline
  props C22
  requires arr(tagAndData) >= 0 && len(tagAndData) >= 1
  ensures r == tagAndData
for T,M in rawString, Raw; unknownValue, Native
func (s T) M() (r)
  ensures [C22] len(r) == len(s) && forall k int :: 0 <= k && k < len(s) ==> r[k] == s[k]
func (s T) Object() (r)
  ensures [C22] dyn(r, []byte) && len(as(r, []byte)) == len(s) && forall k int :: 0 <= k && k < len(s) ==> as(r, []byte)[k] == s[k]
end
func (s uft8String) Utf8() (r)
  ensures [C22] r == s
func (b boolValue) Boolean() (r)
  ensures [C22] r == b
func (n longNumber) Long() (r)
  ensures [C22] r == n
func (n doubleNumber) Double() (r)
  ensures [C22] r == n
func (n bigIntNumber) BigInt() (r)
  ensures [C22] r == n.Int
func (n decimalNumber) Decimal() (r)
  ensures [C22] r == n
for T,G in immutableListValue, []Value; solidListValue, []Value; sparseListValue, []ListItem; immutableMapValue, []MapEntry; sortedMapValue, []MapEntry
func (t T) Object() (r)
  ensures [C22] dyn(r, G) && len(as(r, G)) == len(t) && forall k int :: 0 <= k && k < len(t) ==> as(r, G)[k] == t[k]
end
func (n bigIntNumber) Object() (r)
  ensures [C22] dyn(r, *big.Int) && as(r, *big.Int) == n.Int
func (n decimalNumber) Object() (r)
  ensures [C22] dyn(r, decimal.Decimal) && as(r, decimal.Decimal) == n
