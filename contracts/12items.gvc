// List items and map entries: keys, values and in-place update (C20, C10)

macro ikey(e ListItem) int = if dyn(e, *immutableListItem) then as(e, *immutableListItem).key else as(e, *mutableListItem).key
macro ivalue(e ListItem) Value = if dyn(e, *immutableListItem) then as(e, *immutableListItem).value else as(e, *mutableListItem).value

iface ListItem.Key(this) (r)
  requires this != nil
  ensures r == ikey(this)
iface ListItem.Value(this) (r)
  requires this != nil
  ensures r == ivalue(this)

func MutableEntry(key, value) (r)
  option inline
  props C22
  ensures dyn(r, *mutableMapEntry) && newat(as(r, *mutableMapEntry))
  ensures ekey(r) == key && evalue(r) == value
func ImmutableEntry(key, value) (r)
  option inline
  props C22
  ensures dyn(r, *immutableMapEntry) && newat(as(r, *immutableMapEntry))
  ensures ekey(r) == key && evalue(r) == value
func MutableItem(key, value) (r)
  option inline
  props C22
  ensures dyn(r, *mutableListItem) && newat(as(r, *mutableListItem))
  ensures ikey(r) == key && ivalue(r) == value
func ImmutableItem(key, value) (r)
  option inline
  props C22
  ensures dyn(r, *immutableListItem) && newat(as(r, *immutableListItem))
  ensures ikey(r) == key && ivalue(r) == value

for T in mutableMapEntry; mutableListItem
func (t *T) Update(updater) (r)
  requires updater != nil
  modifies t.value, $ucalls(0), $uarg(0), $uret(0)
  ensures [C20] r == true
  ensures [C20] t.value == nn($uret(0))
  ensures [C20] $ucalls(0) == old($ucalls(0)) + 1
  ensures [C20] $uarg(0) == old(t.value)
end
func (t *immutableMapEntry) Update(updater) (r)
  ensures [C20,C10] r == false
func (t immutableListItem) Update(updater) (r)
  ensures [C20,C10] r == false

// update of a sorted collection: the first element of the key
func (t sortedMapValue) Update(key, updater) (r)
  requires updater != nil
  modifies all(mutableMapEntry.value), $ucalls(0), $uarg(0), $uret(0)
  ensures [C20] forall p int :: old(lb(t, key, p)) ==> r == (old(hit(t, key, p)) && old(dyn(t[p], *mutableMapEntry)))
  ensures [C20] $ucalls(0) == old($ucalls(0)) + (if r then 1 else 0)
  ensures [C20] forall p int :: old(lb(t, key, p)) && r ==> $uarg(0) == old(evalue(t[p])) && evalue(t[p]) == nn($uret(0))
  ensures [C20] forall p int, x *mutableMapEntry :: old(lb(t, key, p)) && !(r && x == as(t[p], *mutableMapEntry)) ==> x.value == old(x.value)
func (t immutableMapValue) Update(key, updater) (r)
  ensures [C20,C10] r == false
