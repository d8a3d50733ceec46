// Decoding: what a successful decode returns is what the bytes say (C03, C04, C01), from memory and from readers

macro urest(u Unpacker) Bytes = if dyn(u, *messageBufUnpacker) then bsub(bytes(as(u, *messageBufUnpacker).buf), as(u, *messageBufUnpacker).off, len(as(u, *messageBufUnpacker).buf)) else $rrest(objid(as(u, *messageIOUnpacker).r))
macro uclean(u Unpacker) bool = dyn(u, *messageBufUnpacker) || $rclean(objid(as(u, *messageIOUnpacker).r))
macro ubuf(u *messageBufUnpacker) bool = 0 <= u.off && u.off <= len(u.buf) && arr(u.buf) >= 0
macro uio(u *messageIOUnpacker) bool = u.r != nil && (u.br == nil || objid(u.br) == objid(u.r))
macro uok(u Unpacker) bool = u != nil && (if dyn(u, *messageBufUnpacker) then as(u, *messageBufUnpacker) != nil && ubuf(as(u, *messageBufUnpacker)) else as(u, *messageIOUnpacker) != nil && uio(as(u, *messageIOUnpacker)))
modset umods(u Unpacker) = if dyn(u, *messageBufUnpacker) then as(u, *messageBufUnpacker).off else nothing, if dyn(u, *messageIOUnpacker) then array(as(u, *messageIOUnpacker).buf) else nothing, if dyn(u, *messageIOUnpacker) then $rrest(objid(as(u, *messageIOUnpacker).r)) else nothing

func MessageUnpacker(buf, copy) (r)
  requires arr(buf) >= 0
  ensures newat(r) && r.buf == buf && r.off == 0 && r.copy == copy

func MessageReader(r) (u)
  requires r != nil
  ensures newat(u) && u.r == r && (u.br == nil || objid(u.br) == objid(r))

func MessageParser() (r)
  ensures newat(r) && r.err == nil

iface Unpacker.Next(this) (f, b)
  requires uok(this)
  modifies umods(this)
  ensures uok(this)
  ensures len(old(urest(this))) == 0 ==> f == (if uclean(this) then EOF else UnexpectedEOF)
  ensures len(old(urest(this))) > 0 && len(old(urest(this))) < hsize(at(old(urest(this)), 0)) ==> f == UnexpectedEOF
  ensures len(old(urest(this))) > 0 && len(old(urest(this))) >= hsize(at(old(urest(this)), 0)) ==> f == fmtof(at(old(urest(this)), 0)) && len(b) == hsize(at(old(urest(this)), 0)) && bytes(b) == bsub(old(urest(this)), 0, hsize(at(old(urest(this)), 0))) && urest(this) == bsub(old(urest(this)), hsize(at(old(urest(this)), 0)), len(old(urest(this))))
  ensures len(old(urest(this))) > 0 && len(old(urest(this))) >= hsize(at(old(urest(this)), 0)) && f == FixExtToken ==> bsub(bytes(b), 1, len(b)) == bsub(old(urest(this)), 1, hsize(at(old(urest(this)), 0)))
  ensures len(old(urest(this))) > 0 && len(old(urest(this))) >= hsize(at(old(urest(this)), 0)) && f != DoubleToken && f != LongToken ==> plen(bytes(b)) == plen(old(urest(this)))
  ensures len(old(urest(this))) > 0 && len(old(urest(this))) >= hsize(at(old(urest(this)), 0)) && f == LongToken ==> plong(bytes(b)) == plong(old(urest(this)))
  ensures len(old(urest(this))) > 0 && len(old(urest(this))) >= hsize(at(old(urest(this)), 0)) && f == DoubleToken ==> pdouble(bytes(b)) == pdouble(old(urest(this)))

iface Unpacker.Read(this, n) (b, err)
  requires uok(this) && n >= 0 && n <= 4294967296
  modifies umods(this)
  ensures uok(this)
  ensures err == nil <==> len(old(urest(this))) >= n
  ensures err == nil ==> len(b) == n && bytes(b) == bsub(old(urest(this)), 0, n) && urest(this) == bsub(old(urest(this)), n, len(old(urest(this))))
  ensures err != nil ==> b == nil && err != extvar("io.EOF")
  ensures arr(b) >= 0
  allocbound [C03] 256 + len(old(urest(this)))

macro perr(p Parser) error = as(p, *messageParser).err
macro pok(p Parser) bool = p != nil && as(p, *messageParser) != nil && as(p, *messageParser).err == nil

for M,F,X in ParseBool, BoolToken, (at(bytes(b), 0) == 195); ParseLong, LongToken, plong(bytes(b)); ParseDouble, DoubleToken, pdouble(bytes(b)); ParseBin, BinHeader, plen(bytes(b)); ParseStr, StrHeader, plen(bytes(b)); ParseList, ListHeader, plen(bytes(b)); ParseMap, MapHeader, plen(bytes(b))
iface Parser.M(this, b) (r)
  requires this != nil && as(this, *messageParser) != nil && len(b) > 0 && len(b) >= hsize(at(bytes(b), 0))
  modifies as(this, *messageParser).err
  ensures fmtof(at(bytes(b), 0)) == F ==> r == X && perr(this) == old(perr(this))
  ensures fmtof(at(bytes(b), 0)) != F ==> perr(this) != nil
end

iface Parser.ParseExt(this, b) (n, d)
  requires this != nil && as(this, *messageParser) != nil && len(b) > 0 && len(b) >= hsize(at(bytes(b), 0))
  modifies as(this, *messageParser).err
  ensures fmtof(at(bytes(b), 0)) == FixExtToken ==> n == plen(bytes(b)) && arr(d) == arr(b) && off(d) == off(b) + 1 && len(d) == len(b) - 1 && perr(this) == old(perr(this))
  ensures fmtof(at(bytes(b), 0)) == ExtHeader ==> n == plen(bytes(b)) && arr(d) == arr(b) && off(d) == off(b) + hsize(at(bytes(b), 0)) && perr(this) == old(perr(this))
  ensures fmtof(at(bytes(b), 0)) != FixExtToken && fmtof(at(bytes(b), 0)) != ExtHeader ==> perr(this) != nil

iface Parser.Error(this) (r)
  requires this != nil && as(this, *messageParser) != nil
  ensures r == perr(this)

func Parse(unpacker, parser) (r, err)
  option sig
  option only:C01,C03,C04,C17,C18
  option cases hide:text hide:jtext hide:hexenc hide:bigtext
  props C03
  requires uok(unpacker) && pok(parser)
  requires [C01,C03,C04] dunf(urest(unpacker))
  modifies umods(unpacker)
  ensures uok(unpacker)
  ensures [C01,C03,C04] err == nil <==> dok(old(urest(unpacker)))
  defines [C18,C19] err == nil <==> dok(old(urest(unpacker)))
  ensures err == nil <==> r != nil
  ensures [C01,C03,C04] err == nil ==> urest(unpacker) == drest(old(urest(unpacker)))
  defines [C18,C19] err == nil ==> urest(unpacker) == drest(old(urest(unpacker))) && view(r) == dval(old(urest(unpacker)))
  ensures err == nil ==> len(urest(unpacker)) < len(old(urest(unpacker)))
  ensures [C01,C04] err == nil ==> view(r) == dval(old(urest(unpacker)))
  ensures [C03] err == nil && fmtof(at(old(urest(unpacker)), 0)) != ListHeader && fmtof(at(old(urest(unpacker)), 0)) != MapHeader ==> view(r) == dval(old(urest(unpacker)))
  ensures [C03] err == nil && fmtof(at(old(urest(unpacker)), 0)) == ListHeader ==> is_vlist(view(r)) && vlen(v_list(view(r))) == plen(old(urest(unpacker)))
  ensures [C03] err == nil && fmtof(at(old(urest(unpacker)), 0)) == MapHeader ==> is_vmap(view(r)) || is_vsp(view(r))
  ensures [C18] err == extvar("io.EOF") <==> len(old(urest(unpacker))) == 0 && uclean(unpacker)
  decreases len(urest(unpacker))
  allocbound [C03] 256 + len(old(urest(unpacker)))
  loopinv uok(unpacker)
  loopinv len(urest(unpacker)) <= pre(len(urest(unpacker)))
  // lists
  loopinv [C01,C03,C04] ?s []Value!: urest(unpacker) == dskip(pre(urest(unpacker)), #it) && forall j int :: 0 <= j && j < #it ==> dok(dskip(pre(urest(unpacker)), j))
  loopinv ?s []Value!: len(s) == #it
  loopinv [C01,C04] ?s []Value!: forall j int :: 0 <= j && j < #it ==> view(s[j]) == dval(dskip(pre(urest(unpacker)), j))
  // maps
  loopinv [C01,C03,C04] ?s []MapEntry!, ?t []ListItem!: urest(unpacker) == dskip(pre(urest(unpacker)), 2 * #it) && forall j int :: 0 <= j && j < 2 * #it ==> dok(dskip(pre(urest(unpacker)), j))
  loopinv ?s []MapEntry!, ?t []ListItem!, ?m bool!: m ==> len(t) == #it && #it > 0
  loopinv ?s []MapEntry!, ?t []ListItem!, ?m bool!: !m ==> len(s) == #it
  loopinv ?s []MapEntry!, ?t []ListItem!, ?m bool!: m ==> forall j int :: 0 <= j && j < #it ==> dyn(t[j], *immutableListItem) && newat(as(t[j], *immutableListItem)) && ikey(t[j]) == fikey(t[j]) && ivalue(t[j]) == fival(t[j])
  loopinv ?s []MapEntry!, ?t []ListItem!, ?m bool!: !m ==> forall j int :: 0 <= j && j < #it ==> dyn(s[j], *immutableMapEntry) && newat(as(s[j], *immutableMapEntry)) && ekey(s[j]) == fekey(s[j]) && evalue(s[j]) == feval(s[j])
  loopinv ?s []MapEntry!, ?t []ListItem!, ?m bool!, ?p int64!: m ==> p == fikey(t[#it - 1])
  loopinv ?s []MapEntry!, ?t []ListItem!, ?m bool!, ?p string!: !m && #it > 0 ==> p == fekey(s[#it - 1])
  loopinv ?s []MapEntry!, ?t []ListItem!, ?m bool!, ?b bool!: m && b ==> forall i int, j int :: 0 <= i && i < j && j < #it ==> fikey(t[i]) <= fikey(t[j])
  loopinv ?s []MapEntry!, ?t []ListItem!, ?m bool!, ?b bool!: !m && b ==> forall i int, j int :: 0 <= i && i < j && j < #it ==> fekey(s[i]) <= fekey(s[j])
  loopinv [C01,C04] ?s []MapEntry!, ?t []ListItem!, ?m bool!: m == (#it > 0 && np(pre(urest(unpacker)), #it))
  loopinv [C01,C04] ?s []MapEntry!, ?t []ListItem!, ?m bool!: m ==> forall j int :: 0 <= j && j < #it ==> fikey(t[j]) == dikey(pre(urest(unpacker)), j) && view(fival(t[j])) == dpay(pre(urest(unpacker)), j)
  loopinv [C01,C04] ?s []MapEntry!, ?t []ListItem!, ?m bool!: !m ==> forall j int :: 0 <= j && j < #it ==> fekey(s[j]) == ktx(pre(urest(unpacker)), j) && view(feval(s[j])) == dpay(pre(urest(unpacker)), j)
  loopinv [C01,C04] ?s []MapEntry!, ?t []ListItem!, ?b bool!: #it == 0 ==> b
  loopinv [C01,C04] ?s []MapEntry!, ?t []ListItem!, ?m bool!, ?b bool!: m ==> b == asci(pre(urest(unpacker)), #it)
  loopinv [C01,C04] ?s []MapEntry!, ?t []ListItem!, ?m bool!, ?b bool!: !m && #it > 0 ==> b == asck(pre(urest(unpacker)), #it)
  // index entries turned into key entries
  loopinv ?s []MapEntry!, ?t []ListItem~: len(s) == #it
  loopinv ?s []MapEntry!, ?t []ListItem~: forall j int :: 0 <= j && j < #it ==> dyn(s[j], *immutableMapEntry) && newat(as(s[j], *immutableMapEntry)) && ekey(s[j]) == fekey(s[j]) && evalue(s[j]) == feval(s[j]) && fekey(s[j]) == itoa(fikey(t[j])) && feval(s[j]) == fival(t[j])


axiom[C01,C04] vgen_seq n
axiom[C01,C04] kgen_seq n
axiom[C01,C04] igen_seq n
axiom[C01,C04] asck_np n (Bool (asck r (- n 1)))

func ReadStream(r, out) (err)
  props C18
  requires r != nil && out != nil && !$chclosed(out)
  modifies $rrest(objid(r)), $chseq(out), $chclosed(out)
  ensures $chclosed(out) && err != nil
  ensures [C18] vsv($chseq(out)) == dstr(vsv(old($chseq(out))), old($rrest(objid(r))))
  ensures [C18] err == extvar("io.EOF") <==> len(dfin(old($rrest(objid(r))))) == 0 && $rclean(objid(r))
  variant len($rrest(objid(r)))
  loopinv !$chclosed(out)
  loopinv ?u *messageIOUnpacker~, ?q *messageParser~: u.r == r && (u.br == nil || objid(u.br) == objid(r)) && q.err == nil
  loopinv [C18] dstr(vsv($chseq(out)), $rrest(objid(r))) == dstr(vsv(pre($chseq(out))), pre($rrest(objid(r))))
  loopinv [C18] dfin($rrest(objid(r))) == dfin(pre($rrest(objid(r))))

func Seal(val, recipientPublicKey, senderPrivateKey) (r, err)
  props C19
  requires recipientPublicKey != nil && senderPrivateKey != nil
  modifies $rrest(objid(extvar("crypto/rand.Reader")))
  ensures [C19] err == nil <==> len(old($rrest(objid(extvar("crypto/rand.Reader"))))) >= 24
  ensures [C19] err == nil ==> $rrest(objid(extvar("crypto/rand.Reader"))) == bsub(old($rrest(objid(extvar("crypto/rand.Reader")))), 24, len(old($rrest(objid(extvar("crypto/rand.Reader"))))))
  ensures [C19] err == nil ==> bytes(r) == bsub(old($rrest(objid(extvar("crypto/rand.Reader")))), 0, 24) ++ boxseal(enc(view(val)), bsub(old($rrest(objid(extvar("crypto/rand.Reader")))), 0, 24), bytes(recipientPublicKey), bytes(senderPrivateKey))
  ensures [C19] err != nil ==> r == nil

func Unseal(encrypted, senderPublicKey, recipientPrivateKey) (r, err)
  props C19
  requires senderPublicKey != nil && recipientPrivateKey != nil && arr(encrypted) >= 0
  ensures [C19] err == nil <==> r != nil
  ensures [C19] err == nil <==> len(encrypted) >= 24 && boxok(bsub(old(bytes(encrypted)), 24, len(encrypted)), bsub(old(bytes(encrypted)), 0, 24), bytes(senderPublicKey), bytes(recipientPrivateKey)) && dok(boxopen(bsub(old(bytes(encrypted)), 24, len(encrypted)), bsub(old(bytes(encrypted)), 0, 24), bytes(senderPublicKey), bytes(recipientPrivateKey)))
  ensures [C19] err == nil ==> view(r) == dval(boxopen(bsub(old(bytes(encrypted)), 24, len(encrypted)), bsub(old(bytes(encrypted)), 0, 24), bytes(senderPublicKey), bytes(recipientPrivateKey)))
  scenario [C19] forall p Bytes, pk Bytes, sk Bytes :: len(encrypted) >= 24 && bsub(old(bytes(encrypted)), 24, len(encrypted)) == boxseal(p, bsub(old(bytes(encrypted)), 0, 24), pk, sk) && boxpair(pk, sk, bytes(senderPublicKey), bytes(recipientPrivateKey)) ==> (err == nil <==> dok(p)) && (err == nil ==> view(r) == dval(p))

func Unpack(buf, copy) (r, err)
  requires arr(buf) >= 0
  ensures [C01,C04,C19] err == nil ==> view(r) == dval(old(bytes(buf)))
  ensures err == nil <==> dok(old(bytes(buf)))
  ensures err == nil <==> r != nil

func Read(r) (x, err)
  requires r != nil
  modifies $rrest(objid(r))
  ensures err == nil <==> dok(old($rrest(objid(r))))
  ensures err == nil <==> x != nil
  ensures [C01,C04] err == nil ==> view(x) == dval(old($rrest(objid(r))))
  ensures err == nil ==> $rrest(objid(r)) == drest(old($rrest(objid(r))))
