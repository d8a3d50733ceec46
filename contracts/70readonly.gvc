// Read-only operations (C11): the default frame of a contract is that nothing that existed before is written

also C11: Value.Kind, Value.Pack, Value.PrintJSON, Value.MarshalJSON, Value.MarshalBinary, Value.Equal, Value.String
also C11: Pack, Hex, Write, WriteStream, Jsonify, Hash, Equal
also C11: Number.Type, Number.IsNaN, Number.Long, Number.Double, Number.BigInt, Number.Decimal, Number.Add, Number.Subtract
also C11: (bigIntNumber).BigInt, (decimalNumber).Decimal, (doubleNumber).Double, (longNumber).Long
also C11: String.Utf8, (rawString).Raw, (boolValue).Boolean
also C11: MapEntry.Key, MapEntry.Value, MapEntry.Equal, ListItem.Key, ListItem.Value, ListItem.Equal
for T in immutableListValue; solidListValue; sparseListValue
also C11: (T).Len, (T).GetAt, (T).Select, (T).Items, (T).Entries, (T).Values, (T).GetBoolAt, (T).GetNumberAt, (T).GetStringAt, (T).GetListAt, (T).GetMapAt
end
for T in immutableMapValue; sortedMapValue
also C11: (T).Len, (T).Get, (T).Select, (T).Entries, (T).Keys, (T).Values, (T).HashMap, (T).GetBool, (T).GetNumber, (T).GetString, (T).GetList, (T).GetMap
end
for T in bigIntNumber; boolValue; decimalNumber; immutableListValue; immutableMapValue; longNumber; rawString; solidListValue; sortedMapValue; sparseListValue; uft8String; unknownValue; doubleNumber
also C11: (T).Object
end
for T in bigIntNumber; boolValue; decimalNumber; doubleNumber; longNumber; nullValue; rawString; uft8String
also C11: (T).String
end
for T in bigIntNumber; boolValue; decimalNumber; doubleNumber; longNumber; nullValue; rawString; uft8String; unknownValue; immutableListValue; immutableMapValue; solidListValue; sortedMapValue; sparseListValue
func (t T) Class() (r)
  option inline
  props C11
end
func (t nullValue) Object() (r)
  option inline
  props C11
for T in uft8String; rawString
func (t T) Len() (r)
  option inline
  props C11
func (t T) Type() (r)
  option inline
  props C11
end
func (t uft8String) Raw() (r)
  option inline
  props C11
func (x unknownValue) Tag() (r)
  option inline
  props C11
func (x unknownValue) Data() (r)
  option inline
  props C11
also C11: (unknownValue).Native, (uft8String).Utf8

// every call of a writer works on its own copy of the scratch buffer
for M in WriteLong(val); WriteDouble(val); WriteStrHeader(len); WriteBinHeader(len); WriteExtHeader(len, xtag); WriteArrayHeader(len); WriteMapHeader(len)
func (p messageWriter) M (r)
  ensures [C11] fresh(r)
end

// what Equal of maps needs to know of the other map
iface Map.Entries(this) (r)
  ensures [C11] forall k int :: 0 <= k && k < len(r) ==> r[k] != nil
for T in immutableMapValue; sortedMapValue
iface Map.Len(this) (r)
  ensures [C11] dyn(this, T) ==> r == len(this.(T))
iface Map.Entries(this) (r)
  ensures [C11] dyn(this, T) ==> len(r) == len(this.(T))
end
iface List.Items(this) (r)
  ensures [C11] forall k int :: 0 <= k && k < len(r) ==> r[k] != nil
