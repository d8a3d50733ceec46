// Maps: sorted sequences of entries, an ordered multimap (C07)

macro ekey(e MapEntry) string = if dyn(e, *immutableMapEntry) then as(e, *immutableMapEntry).key else as(e, *mutableMapEntry).key
macro evalue(e MapEntry) Value = if dyn(e, *immutableMapEntry) then as(e, *immutableMapEntry).value else as(e, *mutableMapEntry).value

// every entry is there and keys ascend
macro entriesok(m []MapEntry) bool = forall k int :: 0 <= k && k < len(m) ==> m[k] != nil
macro sorted(m []MapEntry) bool = forall i int, j int :: 0 <= i && i < j && j < len(m) ==> ekey(m[i]) <= ekey(m[j])
macro inv_immutableMapValue(m immutableMapValue) bool = entriesok(m) && sorted(m)
macro inv_sortedMapValue(m sortedMapValue) bool = entriesok(m) && sorted(m)

// p is the position of the first entry whose key is not below key; q of the first whose key is above
macro lb(m []MapEntry, key string, p int) bool = 0 <= p && p <= len(m) && (p == 0 || ekey(m[p-1]) < key) && (p == len(m) || ekey(m[p]) >= key)
macro ub(m []MapEntry, key string, q int) bool = 0 <= q && q <= len(m) && (q == 0 || ekey(m[q-1]) <= key) && (q == len(m) || ekey(m[q]) > key)
macro hit(m []MapEntry, key string, p int) bool = p < len(m) && ekey(m[p]) == key

iface MapEntry.Key(this) (r)
  requires this != nil
  ensures r == ekey(this)
iface MapEntry.Value(this) (r)
  requires this != nil
  ensures r == evalue(this)

for T,E in immutableMapValue, immutableMapEntry; sortedMapValue, mutableMapEntry

func (t T) Len() (n)
  ensures n == len(t)

func (t T) Get(key) (r)
  ensures [C07,C12] forall p int :: lb(t, key, p) ==> r == (if hit(t, key, p) then evalue(t[p]) else Null)

func (t T) Select(key) (r)
  ensures [C07] forall p int, q int :: lb(t, key, p) && ub(t, key, q) ==> len(r) == q - p
  ensures [C07] forall p int, k int :: lb(t, key, p) && 0 <= k && k < len(r) ==> r[k] == evalue(t[p+k])
  ensures fresh(r)
  loopinv ?s []Value, ?p int: forall k int :: 0 <= k && k < #it ==> s[k] == evalue(t[p+k])
  loopinv ?p int: forall k int :: 0 <= k && k < #it ==> ekey(t[p+k]) == key
  loopinv ?s []Value: len(s) == #it

func (t T) Keys() (r)
  ensures [C07,C22] len(r) == len(t)
  ensures [C07] forall k int :: 0 <= k && k < len(t) ==> r[k] == ekey(t[k])
  ensures fresh(r)
  loopinv ?s []string: forall k int :: 0 <= k && k < #it ==> s[k] == ekey(t[k])

func (t T) Values() (r)
  ensures [C07,C22,C12] len(r) == len(t)
  ensures [C07,C12] forall k int :: 0 <= k && k < len(t) ==> r[k] == evalue(t[k])
  ensures fresh(r)
  loopinv ?s []Value: forall k int :: 0 <= k && k < #it ==> s[k] == evalue(t[k])

func (t T) Entries() (r)
  ensures [C07,C22] len(r) == len(t)
  ensures [C07,C22] forall k int :: 0 <= k && k < len(t) ==> ekey(r[k]) == ekey(t[k]) && evalue(r[k]) == evalue(t[k])

func (t T) HashMap() (r)
  ensures [C07] forall k int :: 0 <= k && k < len(t) ==> sel($mdom(r), ekey(t[k]))
  ensures [C07] forall s string :: (forall k int :: 0 <= k && k < len(t) ==> ekey(t[k]) != s) ==> !sel($mdom(r), s)
  ensures [C07] forall k int :: 0 <= k && k < len(t) && (k == len(t) - 1 || ekey(t[k+1]) != ekey(t[k])) ==> sel($mval(r), ekey(t[k])) == evalue(t[k])
  ensures newat(r)
  loopinv ?m map[string]Value: forall k int :: 0 <= k && k < #it ==> sel($mdom(m), ekey(t[k]))
  loopinv ?m map[string]Value: forall s string :: (forall k int :: 0 <= k && k < #it ==> ekey(t[k]) != s) ==> !sel($mdom(m), s)
  loopinv ?m map[string]Value: forall k int :: 0 <= k && k < #it && (k == #it - 1 || ekey(t[k+1]) != ekey(t[k])) ==> sel($mval(m), ekey(t[k])) == evalue(t[k])

func (t T) Put(key, val) (r)
  ensures dyn(r, T)
  ensures [C07] forall p int :: old(lb(t, key, p)) ==> len(r.(T)) == (if old(hit(t, key, p)) then len(t) else len(t) + 1)
  ensures [C07] forall p int, k int :: old(lb(t, key, p)) && 0 <= k && k < p ==> ekey(r.(T)[k]) == old(ekey(t[k])) && evalue(r.(T)[k]) == old(evalue(t[k]))
  ensures [C07] forall p int :: old(lb(t, key, p)) ==> ekey(r.(T)[p]) == key && evalue(r.(T)[p]) == nn(val)
  ensures [C20] forall p int :: old(lb(t, key, p)) ==> dyn(r.(T)[p], *E)
  ensures [C07] forall p int, k int :: old(lb(t, key, p)) && old(hit(t, key, p)) && p < k && k < len(t) ==> ekey(r.(T)[k]) == old(ekey(t[k])) && evalue(r.(T)[k]) == old(evalue(t[k]))
  ensures [C07] forall p int, k int :: old(lb(t, key, p)) && !old(hit(t, key, p)) && p <= k && k < len(t) ==> ekey(r.(T)[k+1]) == old(ekey(t[k])) && evalue(r.(T)[k+1]) == old(evalue(t[k]))

func (t T) Insert(key, val) (r)
  ensures dyn(r, T)
  ensures [C07] len(r.(T)) == len(t) + 1
  ensures [C07] forall p int, k int :: old(lb(t, key, p)) && 0 <= k && k < p ==> ekey(r.(T)[k]) == old(ekey(t[k])) && evalue(r.(T)[k]) == old(evalue(t[k]))
  ensures [C07] forall p int :: old(lb(t, key, p)) ==> ekey(r.(T)[p]) == key && evalue(r.(T)[p]) == nn(val)
  ensures [C20] forall p int :: old(lb(t, key, p)) ==> dyn(r.(T)[p], *E)
  ensures [C07] forall p int, k int :: old(lb(t, key, p)) && p <= k && k < len(t) ==> ekey(r.(T)[k+1]) == old(ekey(t[k])) && evalue(r.(T)[k+1]) == old(evalue(t[k]))

func (t T) Remove(key) (r)
  ensures dyn(r, T)
  ensures [C07] forall p int :: old(lb(t, key, p)) ==> len(r.(T)) == (if old(hit(t, key, p)) then len(t) - 1 else len(t))
  ensures [C07] forall p int, k int :: old(lb(t, key, p)) && 0 <= k && k < p ==> ekey(r.(T)[k]) == old(ekey(t[k])) && evalue(r.(T)[k]) == old(evalue(t[k]))
  ensures [C07] forall p int, k int :: old(lb(t, key, p)) && old(hit(t, key, p)) && p < k && k < len(t) ==> ekey(r.(T)[k-1]) == old(ekey(t[k])) && evalue(r.(T)[k-1]) == old(evalue(t[k]))
  ensures [C07] forall p int, k int :: old(lb(t, key, p)) && !old(hit(t, key, p)) && p <= k && k < len(t) ==> ekey(r.(T)[k]) == old(ekey(t[k])) && evalue(r.(T)[k]) == old(evalue(t[k]))

func (t T) DeleteAll(key) (r)
  ensures dyn(r, T)
  ensures [C07] forall p int, q int :: old(lb(t, key, p)) && old(ub(t, key, q)) ==> len(r.(T)) == len(t) - (q - p)
  ensures [C07] forall p int, k int :: old(lb(t, key, p)) && 0 <= k && k < p ==> ekey(r.(T)[k]) == old(ekey(t[k])) && evalue(r.(T)[k]) == old(evalue(t[k]))
  ensures [C07] forall p int, q int, k int :: old(lb(t, key, p)) && old(ub(t, key, q)) && q <= k && k < len(t) ==> ekey(r.(T)[k-q+p]) == old(ekey(t[k])) && evalue(r.(T)[k-q+p]) == old(evalue(t[k]))

func (t T) DeleteAll(key) (r)
  loopinv ?p int: forall k int :: 0 <= k && k < #it ==> ekey(t[p+k]) == key

func (t T) InsertAll(key, list) (r)
  ensures dyn(r, T)
  ensures [C07] len(r.(T)) == len(t) + len(list)
  ensures [C07] forall p int, k int :: old(lb(t, key, p)) && 0 <= k && k < p ==> ekey(r.(T)[k]) == old(ekey(t[k])) && evalue(r.(T)[k]) == old(evalue(t[k]))
  ensures [C07] forall p int, k int :: old(lb(t, key, p)) && 0 <= k && k < len(list) ==> ekey(r.(T)[p+k]) == key && evalue(r.(T)[p+k]) == nn(old(list[k]))
  ensures [C20] forall p int, k int :: old(lb(t, key, p)) && 0 <= k && k < len(list) ==> dyn(r.(T)[p+k], *E)
  ensures [C07] forall p int, k int :: old(lb(t, key, p)) && p <= k && k < len(t) ==> ekey(r.(T)[k+len(list)]) == old(ekey(t[k])) && evalue(r.(T)[k+len(list)]) == old(evalue(t[k]))
  loopinv ?s []Value: forall k int :: 0 <= k && k < len(s) ==> s[k] == (if k < #it then nn(pre(s[k])) else pre(s[k]))
  loopinv ?s []Value: forall j int :: !(off(s) <= j && j < off(s) + len(s)) ==> contents(s)[j] == pre(contents(s)[j])
  loopinv ?s []MapEntry: forall k int :: 0 <= k && k < #it ==> s[k] != nil && dyn(s[k], *E) && newat(as(s[k], *E))
  loopinv ?s []MapEntry, ?l []Value: forall k int :: 0 <= k && k < #it ==> ekey(s[k]) == key && evalue(s[k]) == l[k]
end

func (t sortedMapValue) Insert(key, val) (r)
  modifies window(t)
func (t sortedMapValue) Remove(key) (r)
  modifies elems(t)
func (t sortedMapValue) DeleteAll(key) (r)
  modifies elems(t)
func (t sortedMapValue) Put(key, val) (r)
  modifies window(t)
func (t sortedMapValue) InsertAll(key, list) (r)
  modifies window(t), elems(list)
func (t immutableMapValue) Len() (n)
  props C10
func (t immutableMapValue) Get(key) (r)
  props C10
func (t immutableMapValue) Select(key) (r)
  props C10
func (t immutableMapValue) Keys() (r)
  props C10
func (t immutableMapValue) Values() (r)
  props C10
func (t immutableMapValue) Entries() (r)
  props C10
func (t immutableMapValue) HashMap() (r)
  props C10
func (t immutableMapValue) Put(key, val) (r)
  props C10
func (t immutableMapValue) Insert(key, val) (r)
  props C10
func (t immutableMapValue) Remove(key) (r)
  props C10
func (t immutableMapValue) DeleteAll(key) (r)
  props C10
func (t immutableMapValue) InsertAll(key, list) (r)
  props C10
for T in immutableMapValue; sortedMapValue
func (t T) Len() (n)
  props C07
end
