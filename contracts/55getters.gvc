// Typed getters (C12); items and entries of lists (C08, C09)

axiom[C12] kvals_ext! n
axiom[C12] kvals_seq 0
axiom[C12] vents_seq n
axiom[C12] ients_seq n
axiom[C12] vseq_ext! n
axiom[C12] vseq_same 0

for F in ImmutableList; MutableList
func F(list) (r)
  ensures [C12] vsame(v_list(view(r)), vseq(contents(list), off(list), len(list)))
end

// what the getters make of an element
macro isbool(x Value) bool = is_vbool(view(x))
macro gbool(x Value, r Value) bool = if dnull(x) then view(r) == vbool(false) else if is_vbool(view(x)) then r == x else view(r) == vbool(parsebool(text(view(x))))
macro gnumber(x Value, r Value) bool = if dnull(x) then view(r) == vlong(0) else if isnum(view(x)) then r == x else view(r) == pnum(text(view(x)))
macro gstring(x Value, r Value) bool = if dnull(x) then view(r) == vstr("") else if isstr(view(x)) then r == x else view(r) == pstr(text(view(x)))
macro glist(x Value, r Value) bool = if dnull(x) then view(r) == vlist(vln()) else if islist(view(x)) then r == x else view(r) == (if is_vmap(view(x)) then vlist(kvals(v_map(view(x)))) else vlist(vln()))
macro gmap(x Value, r Value) bool = if dnull(x) then view(r) == vmap(kln()) else if is_vmap(view(x)) then r == x else view(r) == (if islist(view(x)) then vmap(ksort(lents(view(x)))) else vmap(kln()))

func ParseNumber(str) (r)
  defines [C12] view(r) == pnum(str)
func ParseBoolean(str) (r)
  ensures [C12] r == parsebool(str)
func ParseString(str) (r)
  ensures [C12] view(r) == pstr(str)

iface Map.Values(this) (r)
  requires this != nil
  ensures [C12] vseq(contents(r), off(r), len(r)) == kvals(v_map(view(this)))
  loopinv [C12] ?s []Value: len(s) == #it

iface List.Entries(this) (r)
  requires this != nil
  ensures [C11,C12] forall k int :: 0 <= k && k < len(r) ==> r[k] != nil
  ensures [C12] kseq(contents(r), off(r), len(r)) == lents(view(this))
  ensures [C11,C12] len(r) > 0 ==> fresh(r)
  ensures [C12] len(r) > 0 ==> !$frz(arr(r))

for T in immutableListValue; solidListValue
func (t T) Entries() (r)
  ensures [C08,C12] len(r) == len(t)
  ensures [C08,C12] forall k int :: 0 <= k && k < len(t) ==> ekey(r[k]) == itoa(k) && evalue(r[k]) == t[k]
  loopinv ?s []MapEntry: len(s) == #it
  loopinv ?s []MapEntry: forall k int :: 0 <= k && k < #it ==> dyn(s[k], *immutableMapEntry) && newat(as(s[k], *immutableMapEntry)) && ekey(s[k]) == itoa(k) && evalue(s[k]) == t[k]
  loopinv [C12] ?s []MapEntry: forall k int :: 0 <= k && k < #it ==> s[k] != nil && fekey(s[k]) == itoa(k) && feval(s[k]) == t[k]
func (t T) Items() (r)
  ensures [C08] len(r) == len(t)
  ensures [C08] forall k int :: 0 <= k && k < len(t) ==> ikey(r[k]) == k && ivalue(r[k]) == t[k]
  loopinv ?s []ListItem: len(s) == #it
  loopinv ?s []ListItem: forall k int :: 0 <= k && k < #it ==> dyn(s[k], *immutableListItem) && newat(as(s[k], *immutableListItem)) && ikey(s[k]) == k && ivalue(s[k]) == t[k]
func (t T) Values() (r)
  ensures [C08] len(r) == len(t)
  ensures [C08] forall k int :: 0 <= k && k < len(t) ==> r[k] == t[k]
end
func (t sparseListValue) Entries() (r)
  ensures [C09,C12] len(r) == len(t)
  ensures [C09,C12] forall k int :: 0 <= k && k < len(t) ==> ekey(r[k]) == itoa(ikey(t[k])) && evalue(r[k]) == ivalue(t[k])
  loopinv ?s []MapEntry: len(s) == #it
  loopinv ?s []MapEntry: forall k int :: 0 <= k && k < #it ==> dyn(s[k], *mutableMapEntry) && newat(as(s[k], *mutableMapEntry)) && ekey(s[k]) == itoa(ikey(t[k])) && evalue(s[k]) == ivalue(t[k])
  loopinv [C12] ?s []MapEntry: forall k int :: 0 <= k && k < #it ==> s[k] != nil && fekey(s[k]) == itoa(ikey(t[k])) && feval(s[k]) == ivalue(t[k])

for T in immutableListValue; solidListValue
for G,P in GetBoolAt, gbool; GetNumberAt, gnumber; GetStringAt, gstring; GetListAt, glist; GetMapAt, gmap
func (t T) G(index) (r)
  ensures [C12] r != nil
  ensures [C12] P(if 0 <= index && index < len(t) then t[index] else Null, r)
end
end
for G,P in GetBoolAt, gbool; GetNumberAt, gnumber; GetStringAt, gstring; GetListAt, glist; GetMapAt, gmap
func (t sparseListValue) G(index) (r)
  ensures [C12] r != nil
  ensures [C12] forall p int :: ilb(t, index, p) ==> P(if ihit(t, index, p) then ivalue(t[p]) else Null, r)
end
for T in immutableMapValue; sortedMapValue
for G,P in GetBool, gbool; GetNumber, gnumber; GetString, gstring; GetList, glist; GetMap, gmap
func (t T) G(key) (r)
  ensures [C12] r != nil
  ensures [C12] forall p int :: lb(t, key, p) ==> P(if hit(t, key, p) then evalue(t[p]) else Null, r)
end
end
