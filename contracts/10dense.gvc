// Dense lists: a mathematical sequence of values (C08), immutable ones frozen (C10)

macro nn(v Value) Value = if v == nil then Null else v
macro dnull(v Value) bool = v == nil || v == Null

iface Updater.Update(this, v) (r)
  requires v == v
  modifies $ucalls(0), $uarg(0), $uret(0)
  ensures $ucalls(0) == old($ucalls(0)) + 1
  ensures $uarg(0) == v
  ensures r == $uret(0)

for T in immutableListValue; solidListValue

func (t T) Len() (n)
  ensures [C08] n == len(t)

func (t T) GetAt(i) (r)
  ensures [C08,C12] 0 <= i && i < len(t) ==> r == t[i]
  ensures [C08,C12] !(0 <= i && i < len(t)) ==> r == Null

func (t T) Append(val) (r)
  ensures [C08] dyn(r, T)
  ensures [C08] len(r.(T)) == len(t) + 1
  ensures [C08] forall k int :: 0 <= k && k < len(t) ==> r.(T)[k] == old(t[k])
  ensures [C08] r.(T)[len(t)] == nn(val)

func (t T) PutAt(i, val) (r)
  requires i < 9223372036854775807
  ensures [C08] dyn(r, T)
  ensures [C08] len(r.(T)) == (if i < len(t) then len(t) else i + 1)
  ensures [C08] forall k int :: 0 <= k && k < len(r.(T)) ==> r.(T)[k] == (if k == i then nn(val) else if k < len(t) then old(t[k]) else nil)

func (t T) InsertAt(i, val) (r)
  ensures [C08] dyn(r, T)
  ensures [C08] i < 0 ==> len(r.(T)) == len(t)
  ensures [C08] i >= 0 ==> len(r.(T)) == len(t) + 1
  ensures [C08] forall k int :: 0 <= k && k < len(t) && (i < 0 || k < i) ==> r.(T)[k] == old(t[k])
  ensures [C08] i >= 0 ==> r.(T)[if i < len(t) then i else len(t)] == nn(val)
  ensures [C08] forall k int :: i >= 0 && i <= k && k < len(t) ==> r.(T)[k+1] == old(t[k])

func (t T) RemoveAt(i) (r)
  ensures [C08] dyn(r, T)
  ensures [C08] len(r.(T)) == (if 0 <= i && i < len(t) then len(t) - 1 else len(t))
  ensures [C08] forall k int :: 0 <= k && k < len(r.(T)) && (i < 0 || k < i) ==> r.(T)[k] == old(t[k])
  ensures [C08] forall k int :: 0 <= i && i < k && k < len(t) ==> r.(T)[k-1] == old(t[k])

func (t T) DeleteAll(i) (r)
  ensures [C08] dyn(r, T)
  ensures [C08] len(r.(T)) == (if 0 <= i && i < len(t) then len(t) - 1 else len(t))
  ensures [C08] forall k int :: 0 <= k && k < len(r.(T)) && (i < 0 || k < i) ==> r.(T)[k] == old(t[k])
  ensures [C08] forall k int :: 0 <= i && i < k && k < len(t) ==> r.(T)[k-1] == old(t[k])

func (t T) Select(i) (r)
  ensures [C08] 0 <= i && i < len(t) && t[i] != Null ==> len(r) == 1 && r[0] == t[i]
  ensures [C08] !(0 <= i && i < len(t) && t[i] != Null) ==> len(r) == 0
  ensures fresh(r)

func (t T) InsertAll(i, list) (r)
  ensures [C08] dyn(r, T)
  ensures [C08] i < 0 ==> len(r.(T)) == len(t)
  ensures [C08] i >= 0 ==> len(r.(T)) == len(t) + len(list)
  ensures [C08] forall k int :: 0 <= k && k < len(t) && (i < 0 || k < i) ==> r.(T)[k] == old(t[k])
  ensures [C08] forall k int :: 0 <= k && k < len(list) && i >= 0 ==> r.(T)[k + (if i < len(t) then i else len(t))] == nn(old(list[k]))
  ensures [C08] forall k int :: i >= 0 && i <= k && k < len(t) ==> r.(T)[k+len(list)] == old(t[k])
end


func (t solidListValue) InsertAt(i, val) (r)
  modifies window(t)
func (t solidListValue) Append(val) (r)
  modifies window(t)
func (t solidListValue) RemoveAt(i) (r)
  modifies elems(t)
func (t solidListValue) DeleteAll(i) (r)
  modifies elems(t)
func (t solidListValue) InsertAll(i, list) (r)
  requires arr(list) != arr(t) || forall k int :: 0 <= k && k < len(list) ==> list[k] != nil
  modifies window(t), window(list)
func (t solidListValue) UpdateAt(i, updater) (r)
  requires updater != nil
  ensures [C20] r == (0 <= i && i < len(t))
  modifies elems(t)
func (t immutableListValue) UpdateAt(i, updater) (r)
  ensures [C20,C10] r == false
for T in immutableListValue; solidListValue
func (t T) InsertAll(i, list) (r)
  loopinv ?s []Value: forall k int :: 0 <= k && k < len(s) ==> s[k] == (if k < #it then nn(pre(s[k])) else pre(s[k]))
  loopinv ?s []Value: forall j int :: !(off(s) <= j && j < off(s) + len(s)) ==> contents(s)[j] == pre(contents(s)[j])
end
func (t solidListValue) PutAt(i, val) (r)
  modifies window(t)
func (t solidListValue) InsertAll(i, list) (r)
  loopinv ?s []Value: arr(list) == arr(t) ==> forall j int :: contents(s)[j] == pre(contents(s)[j])
func (t solidListValue) UpdateAt(i, updater) (r)
  modifies $ucalls(0), $uarg(0), $uret(0)
  ensures [C20] $ucalls(0) == old($ucalls(0)) + (if r then 1 else 0)
  ensures [C20] r ==> $uarg(0) == old(t[i])
  ensures [C20] r ==> t[i] == nn($uret(0))
  ensures [C20] forall k int :: 0 <= k && k < len(t) && !(r && k == i) ==> t[k] == old(t[k])
func (t immutableListValue) UpdateAt(i, updater) (r)

// immutable collections: nothing that existed before is written (the frame condition), by any operation
func (t immutableListValue) Len() (n)
  props C10
func (t immutableListValue) GetAt(i) (r)
  props C10
func (t immutableListValue) Append(val) (r)
  props C10
func (t immutableListValue) PutAt(i, val) (r)
  props C10
func (t immutableListValue) InsertAt(i, val) (r)
  props C10
func (t immutableListValue) RemoveAt(i) (r)
  props C10
func (t immutableListValue) DeleteAll(i) (r)
  props C10
func (t immutableListValue) Select(i) (r)
  props C10
func (t immutableListValue) InsertAll(i, list) (r)
  props C10
