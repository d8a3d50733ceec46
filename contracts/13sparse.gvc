// Sparse lists: sorted sequences of items, an ordered integer-keyed multimap (C09)

macro isorted(m []ListItem) bool = forall i int, j int :: 0 <= i && i < j && j < len(m) ==> ikey(m[i]) <= ikey(m[j])
macro itemsok(m []ListItem) bool = forall k int :: 0 <= k && k < len(m) ==> m[k] != nil
macro inv_sparseListValue(m sparseListValue) bool = itemsok(m) && isorted(m)
macro ilb(m []ListItem, key int, p int) bool = 0 <= p && p <= len(m) && (p == 0 || ikey(m[p-1]) < key) && (p == len(m) || ikey(m[p]) >= key)
macro iub(m []ListItem, key int, q int) bool = 0 <= q && q <= len(m) && (q == 0 || ikey(m[q-1]) <= key) && (q == len(m) || ikey(m[q]) > key)
macro ihit(m []ListItem, key int, p int) bool = p < len(m) && ikey(m[p]) == key
macro slen(m []ListItem) int = if len(m) == 0 then 0 else if ikey(m[len(m)-1]) < 0 then 0 else wrap64(ikey(m[len(m)-1]) + 1)

func (t sparseListValue) Len() (n)
  option wraps
  ensures [C09] n == slen(t)

func (t sparseListValue) Items() (r)
  ensures [C09] len(r) == len(t)
  ensures [C09] forall k int :: 0 <= k && k < len(t) ==> r[k] == t[k]

func (t sparseListValue) Values() (r)
  requires len(t) > 0 ==> ikey(t[len(t)-1]) < 9223372036854775807
  ensures [C09] len(r) == slen(t)
  ensures [C09] forall k int :: 0 <= k && k < len(t) && ikey(t[k]) >= 0 && (k == len(t) - 1 || ikey(t[k+1]) != ikey(t[k])) ==> r[ikey(t[k])] == ivalue(t[k])
  ensures [C09] forall j int :: 0 <= j && j < len(r) && (forall k int :: 0 <= k && k < len(t) ==> ikey(t[k]) != j) ==> r[j] == nil
  ensures fresh(r)
  loopinv ?s []Value: forall k int :: 0 <= k && k < #it && ikey(t[k]) >= 0 && (k == #it - 1 || ikey(t[k+1]) != ikey(t[k])) ==> s[ikey(t[k])] == ivalue(t[k])
  loopinv ?s []Value: forall j int :: 0 <= j && j < len(s) && (forall k int :: 0 <= k && k < #it ==> ikey(t[k]) != j) ==> s[j] == nil

func (t sparseListValue) Append(val) (r)
  requires len(t) > 0 ==> ikey(t[len(t)-1]) < 9223372036854775807
  ensures dyn(r, sparseListValue)
  modifies window(t)
  ensures [C09] len(r.(sparseListValue)) == len(t) + 1
  ensures [C09] forall k int :: 0 <= k && k < len(t) ==> ikey(r.(sparseListValue)[k]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k]) == old(ivalue(t[k]))
  ensures [C09] ikey(r.(sparseListValue)[len(t)]) == (if len(t) == 0 then 0 else old(ikey(t[len(t)-1])) + 1) && ivalue(r.(sparseListValue)[len(t)]) == nn(val)
  ensures [C20] dyn(r.(sparseListValue)[len(t)], *mutableListItem)

func (t sparseListValue) GetAt(key) (r)
  ensures [C09,C12] forall p int :: ilb(t, key, p) ==> r == (if ihit(t, key, p) then ivalue(t[p]) else Null)

func (t sparseListValue) Select(key) (r)
  ensures [C09] forall p int, q int :: ilb(t, key, p) && iub(t, key, q) ==> len(r) == q - p
  ensures [C09] forall p int, k int :: ilb(t, key, p) && 0 <= k && k < len(r) ==> r[k] == ivalue(t[p+k])
  ensures fresh(r)
  loopinv ?s []Value, ?p int: forall k int :: 0 <= k && k < #it ==> s[k] == ivalue(t[p+k])
  loopinv ?p int: forall k int :: 0 <= k && k < #it ==> ikey(t[p+k]) == key
  loopinv ?s []Value: len(s) == #it



func (t sparseListValue) PutAt(key, val) (r)
  ensures dyn(r, sparseListValue)
  ensures [C09] forall p int :: old(ilb(t, key, p)) ==> len(r.(sparseListValue)) == (if old(ihit(t, key, p)) then len(t) else len(t) + 1)
  ensures [C09] forall p int, k int :: old(ilb(t, key, p)) && 0 <= k && k < p ==> ikey(r.(sparseListValue)[k]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k]) == old(ivalue(t[k]))
  ensures [C09] forall p int :: old(ilb(t, key, p)) ==> ikey(r.(sparseListValue)[p]) == key && ivalue(r.(sparseListValue)[p]) == nn(val)
  ensures [C20] forall p int :: old(ilb(t, key, p)) ==> dyn(r.(sparseListValue)[p], *mutableListItem)
  ensures [C09] forall p int, k int :: old(ilb(t, key, p)) && old(ihit(t, key, p)) && p < k && k < len(t) ==> ikey(r.(sparseListValue)[k]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k]) == old(ivalue(t[k]))
  ensures [C09] forall p int, k int :: old(ilb(t, key, p)) && !old(ihit(t, key, p)) && p <= k && k < len(t) ==> ikey(r.(sparseListValue)[k+1]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k+1]) == old(ivalue(t[k]))

func (t sparseListValue) InsertAt(key, val) (r)
  ensures dyn(r, sparseListValue)
  ensures [C09] len(r.(sparseListValue)) == len(t) + 1
  ensures [C09] forall p int, k int :: old(ilb(t, key, p)) && 0 <= k && k < p ==> ikey(r.(sparseListValue)[k]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k]) == old(ivalue(t[k]))
  ensures [C09] forall p int :: old(ilb(t, key, p)) ==> ikey(r.(sparseListValue)[p]) == key && ivalue(r.(sparseListValue)[p]) == nn(val)
  ensures [C20] forall p int :: old(ilb(t, key, p)) ==> dyn(r.(sparseListValue)[p], *mutableListItem)
  ensures [C09] forall p int, k int :: old(ilb(t, key, p)) && p <= k && k < len(t) ==> ikey(r.(sparseListValue)[k+1]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k+1]) == old(ivalue(t[k]))

func (t sparseListValue) RemoveAt(key) (r)
  ensures dyn(r, sparseListValue)
  ensures [C09] forall p int :: old(ilb(t, key, p)) ==> len(r.(sparseListValue)) == (if old(ihit(t, key, p)) then len(t) - 1 else len(t))
  ensures [C09] forall p int, k int :: old(ilb(t, key, p)) && 0 <= k && k < p ==> ikey(r.(sparseListValue)[k]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k]) == old(ivalue(t[k]))
  ensures [C09] forall p int, k int :: old(ilb(t, key, p)) && old(ihit(t, key, p)) && p < k && k < len(t) ==> ikey(r.(sparseListValue)[k-1]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k-1]) == old(ivalue(t[k]))
  ensures [C09] forall p int, k int :: old(ilb(t, key, p)) && !old(ihit(t, key, p)) && p <= k && k < len(t) ==> ikey(r.(sparseListValue)[k]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k]) == old(ivalue(t[k]))

func (t sparseListValue) DeleteAll(key) (r)
  ensures dyn(r, sparseListValue)
  ensures [C09] forall p int, q int :: old(ilb(t, key, p)) && old(iub(t, key, q)) ==> len(r.(sparseListValue)) == len(t) - (q - p)
  ensures [C09] forall p int, k int :: old(ilb(t, key, p)) && 0 <= k && k < p ==> ikey(r.(sparseListValue)[k]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k]) == old(ivalue(t[k]))
  ensures [C09] forall p int, q int, k int :: old(ilb(t, key, p)) && old(iub(t, key, q)) && q <= k && k < len(t) ==> ikey(r.(sparseListValue)[k-q+p]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k-q+p]) == old(ivalue(t[k]))

func (t sparseListValue) DeleteAll(key) (r)
  loopinv ?p int: forall k int :: 0 <= k && k < #it ==> ikey(t[p+k]) == key

func (t sparseListValue) InsertAll(key, list) (r)
  ensures dyn(r, sparseListValue)
  ensures [C09] len(r.(sparseListValue)) == len(t) + len(list)
  ensures [C09] forall p int, k int :: old(ilb(t, key, p)) && 0 <= k && k < p ==> ikey(r.(sparseListValue)[k]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k]) == old(ivalue(t[k]))
  ensures [C09] forall p int, k int :: old(ilb(t, key, p)) && 0 <= k && k < len(list) ==> ikey(r.(sparseListValue)[p+k]) == key && ivalue(r.(sparseListValue)[p+k]) == nn(old(list[k]))
  ensures [C20] forall p int, k int :: old(ilb(t, key, p)) && 0 <= k && k < len(list) ==> dyn(r.(sparseListValue)[p+k], *mutableListItem)
  ensures [C09] forall p int, k int :: old(ilb(t, key, p)) && p <= k && k < len(t) ==> ikey(r.(sparseListValue)[k+len(list)]) == old(ikey(t[k])) && ivalue(r.(sparseListValue)[k+len(list)]) == old(ivalue(t[k]))
  loopinv ?s []Value: forall k int :: 0 <= k && k < len(s) ==> s[k] == (if k < #it then nn(pre(s[k])) else pre(s[k]))
  loopinv ?s []Value: forall j int :: !(off(s) <= j && j < off(s) + len(s)) ==> contents(s)[j] == pre(contents(s)[j])
  loopinv ?s []ListItem: forall k int :: 0 <= k && k < #it ==> s[k] != nil && dyn(s[k], *mutableListItem) && newat(as(s[k], *mutableListItem))
  loopinv ?s []ListItem, ?l []Value: forall k int :: 0 <= k && k < #it ==> ikey(s[k]) == key && ivalue(s[k]) == l[k]

func (t sparseListValue) InsertAt(key, val) (r)
  modifies window(t)
func (t sparseListValue) PutAt(key, val) (r)
  modifies window(t)
func (t sparseListValue) RemoveAt(key) (r)
  modifies elems(t)
func (t sparseListValue) DeleteAll(key) (r)
  modifies elems(t)
func (t sparseListValue) InsertAll(key, list) (r)
  modifies window(t), elems(list)

func (t sparseListValue) UpdateAt(key, updater) (r)
  requires updater != nil
  modifies all(mutableListItem.value), $ucalls(0), $uarg(0), $uret(0)
  ensures [C20] forall p int :: old(ilb(t, key, p)) ==> r == (old(ihit(t, key, p)) && old(dyn(t[p], *mutableListItem)))
  ensures [C20] $ucalls(0) == old($ucalls(0)) + (if r then 1 else 0)
  ensures [C20] forall p int :: old(ilb(t, key, p)) && r ==> $uarg(0) == old(ivalue(t[p])) && ivalue(t[p]) == nn($uret(0))
  ensures [C20] forall p int, x *mutableListItem :: old(ilb(t, key, p)) && !(r && x == as(t[p], *mutableListItem)) ==> x.value == old(x.value)
