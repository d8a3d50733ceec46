// Packing: the bytes handed to the writer are the MessagePack encoding of the value (C02), and a failed
// write is reported and is the last one (C05)

macro mp(p Packer) *messagePacker = as(p, *messagePacker)
macro pw(p Packer) io.Writer = as(p, *messagePacker).w
macro inv_rawString(s rawString) bool = arr(s) >= 0
macro inv_unknownValue(s unknownValue) bool = arr(s) >= 0 && len(s) >= 1

modset pmods(p Packer) = as(p, *messagePacker).err, $wout(objid(as(p, *messagePacker).w)), $wfail(objid(as(p, *messagePacker).w))

func MessagePacker(w) (r)
  requires w != nil
  ensures newat(r) && r.w == w && r.err == nil

for M,X in PackNil(), unit(192); PackBool(val), unit(if val then 195 else 194); PackLong(val), elong(val); PackDouble(val), edouble(val); PackStr(str), estrh(len(str)) ++ str; PackBin(b), ebinh(len(b)) ++ bytes(b); PackExt(xtag, data), eexth(len(data), xtag) ++ bytes(data); PackList(size), earrh(if size < 0 then 0 else size); PackMap(size), emaph(if size < 0 then 0 else size); PackRaw(b), bytes(b)
func (p *messagePacker) M
  requires p.w != nil
  requires [C02,C06,C18,C19] !$wfail(p.w) ==> p.err == nil
  requires [C05] $wfail(p.w) ==> p.err != nil
  modifies p.err, $wout(objid(p.w)), $wfail(objid(p.w))
  ensures old($wfail(p.w)) ==> $wfail(p.w)
  ensures infallible(p.w) && !old($wfail(p.w)) ==> !$wfail(p.w)
  ensures [C02,C06,C18,C19] !$wfail(p.w) ==> p.err == nil
  ensures [C05] $wfail(p.w) ==> p.err != nil
  ensures [C05] old($wfail(p.w)) ==> p.err == old(p.err) && $wout(p.w) == old($wout(p.w))
  ensures [C02,C06,C18,C19] !$wfail(p.w) ==> $wout(p.w) == old($wout(p.w)) ++ old(X)
end

func (p messagePacker) Error() (r)
  ensures r == p.err

for M,X in WriteNil(), unit(192); WriteBool(val), unit(if val then 195 else 194); WriteLong(val), elong(val); WriteDouble(val), edouble(val)
func (p messageWriter) M (r)
  ensures [C02,C06,C18,C19] bytes(r) == X
end

for M,X in WriteStrHeader(len), estrh(len); WriteBinHeader(len), ebinh(len); WriteExtHeader(len, xtag), eexth(len, xtag); WriteArrayHeader(len), earrh(len); WriteMapHeader(len), emaph(len)
func (p messageWriter) M (r)
  requires len >= 0
  ensures [C02,C06,C18,C19] bytes(r) == X
end

// every kind of value packs its encoding
iface Value.Pack(this, p)
  requires this != nil && p != nil && mp(p) != nil && pw(p) != nil
  requires [C02,C06,C18,C19] !$wfail(pw(p)) ==> mp(p).err == nil
  requires [C05] $wfail(pw(p)) ==> mp(p).err != nil
  modifies pmods(p)
  ensures old($wfail(pw(p))) ==> $wfail(pw(p))
  ensures infallible(pw(p)) && !old($wfail(pw(p))) ==> !$wfail(pw(p))
  ensures [C02,C06,C18,C19] !$wfail(pw(p)) ==> mp(p).err == nil
  ensures [C05] $wfail(pw(p)) ==> mp(p).err != nil
  ensures [C05] old($wfail(pw(p))) ==> mp(p).err == old(mp(p).err) && $wout(pw(p)) == old($wout(pw(p)))
  ensures [C02,C06,C18,C19] !$wfail(pw(p)) ==> $wout(pw(p)) == old($wout(pw(p))) ++ enc(view(this))
  loopinv pre($wfail(pw(p))) ==> $wfail(pw(p))
  loopinv infallible(pw(p)) && !pre($wfail(pw(p))) ==> !$wfail(pw(p))
  loopinv [C02,C06,C18,C19] !$wfail(pw(p)) ==> mp(p).err == nil
  loopinv [C05] $wfail(pw(p)) ==> mp(p).err != nil
  loopinv [C05] pre($wfail(pw(p))) ==> mp(p).err == pre(mp(p).err) && $wout(pw(p)) == pre($wout(pw(p)))
  loopinv [C02,C06,C18,C19] ?s []Value: !$wfail(pw(p)) ==> $wout(pw(p)) ++ encs(vseq(sel(FHV(), arr(s)), off(s) + #it, len(s) - #it)) == pre($wout(pw(p))) ++ encs(vseq(sel(FHV(), arr(s)), off(s), len(s)))
  loopinv [C02,C06,C18,C19] ?s []MapEntry: !$wfail(pw(p)) ==> $wout(pw(p)) ++ enck(kseq(sel(FHE(), arr(s)), off(s) + #it, len(s) - #it)) == pre($wout(pw(p))) ++ enck(kseq(sel(FHE(), arr(s)), off(s), len(s)))
  loopinv [C02,C06,C18,C19] ?s []ListItem: !$wfail(pw(p)) ==> $wout(pw(p)) ++ enci(iseq(sel(FHI(), arr(s)), off(s) + #it, len(s) - #it)) == pre($wout(pw(p))) ++ enci(iseq(sel(FHI(), arr(s)), off(s), len(s)))

iface Value.MarshalBinary(this) (r, err)
  requires this != nil
  ensures [C02,C06] err == nil && bytes(r) == enc(view(this))
  ensures [C11] fresh(r)

func Pack(val) (r, err)
  ensures [C02,C06,C19] err == nil && bytes(r) == enc(view(val))

func Hex(val) (r)
  ensures [C02,C06] r == hexenc(enc(view(val)))

func Write(w, val) (err)
  requires w != nil && !$wfail(w)
  modifies $wout(objid(w)), $wfail(objid(w))
  ensures [C05] $wfail(w) ==> err != nil
  ensures [C02,C06,C18,C19] !$wfail(w) ==> err == nil && $wout(w) == old($wout(w)) ++ enc(view(val))

func WriteStream(w, valueC) (err)
  requires w != nil && !$wfail(w) && valueC != nil
  modifies $wout(objid(w)), $wfail(objid(w)), $chrest(valueC)
  ensures [C05] $wfail(w) ==> err != nil
  ensures [C18] !$wfail(w) ==> err == nil && $wout(w) == old($wout(w)) ++ encvs(old($chrest(valueC)))
  loopinv [C05] ?q *messagePacker: $wfail(w) ==> q.err != nil
  loopinv [C18] ?q *messagePacker: !$wfail(w) ==> q.err == nil
  loopinv ?q *messagePacker: q.w == w
  loopinv [C18] !$wfail(w) ==> $wout(w) ++ encvs($chrest(valueC)) == pre($wout(w)) ++ encvs(pre($chrest(valueC)))
