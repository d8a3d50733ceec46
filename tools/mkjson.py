def lit(s): return "lit!"+s.encode().hex()
def cat(*xs):
    r=xs[-1]
    for x in reversed(xs[:-1]): r="(app %s %s)"%(x,r)
    return r
Q=lit('"')
out=[]
def ax(name,vars,body,pat):
    if vars: out.append("(assert (! (forall (%s) (! %s :pattern (%s))) :named %s))"%(vars,body,pat,name))
    else: out.append("(assert (! %s :named %s))"%(body,name))
def eq(name,vars,l,r): ax(name,vars,"(= %s %s)"%(l,r),l)
out.append('''; ---------------------------------------------------------------- texts of values (C14, C12, C06)
(declare-fun ext_base64_RawStdEncoding () Int)
(declare-fun jtext (V) Bytes)
; what follows in a list, a map, a sparse list; true before the first element
(declare-fun jls (VL Bool) Bytes)
(declare-fun jks (KL Bool) Bytes)
(declare-fun jis (IL Bool) Bytes)
(define-fun b64 ((b Bytes)) Bytes (b64enc ext_base64_RawStdEncoding b))''')
RAW=lambda b: cat(lit("base64,"),"(b64enc ext_base64_RawStdEncoding %s)"%b)
EXT=lambda b: cat(lit("data:application/x-msgpack-ext;base64,"),"(b64enc ext_base64_RawStdEncoding %s)"%b)
QT=lambda b: cat(Q,b,Q)
out.append("(define-fun rawtext ((b Bytes)) Bytes %s)"%cat(lit("base64,"),"(b64 b)"))
out.append("(define-fun exttext ((b Bytes)) Bytes %s)"%cat(lit("data:application/x-msgpack-ext;base64,"),"(b64 b)"))
out.append("(define-fun quoted ((b Bytes)) Bytes %s)"%cat(Q,"b",Q))
eq("jt_null","","(jtext vnull)",lit("null"))
eq("jt_bool","(b Bool)","(jtext (vbool b))","(fmtbool b)")
eq("jt_long","(i Int)","(jtext (vlong i))","(itoa i)")
eq("jt_dbl","(d F64)","(jtext (vdbl d))","(ite (or (isnan d) (isinf d 0)) %s (ftext d))"%lit("null"))
eq("jt_big","(n Int)","(jtext (vbig n))",QT("(bigtext n)"))
eq("jt_dec","(d Dec)","(jtext (vdec d))",QT("(dectext d)"))
eq("jt_str","(s Bytes)","(jtext (vstr s))","(jsonq s false)")
eq("jt_raw","(b Bytes)","(jtext (vraw b))",QT(RAW("b")))
eq("jt_ext","(b Bytes)","(jtext (vext b))",QT(EXT("b")))
eq("jt_list","(l VL)","(jtext (vlist l))",cat(lit("["),"(jls l true)",lit("]")))
eq("jt_map","(l KL)","(jtext (vmap l))",cat(lit("{"),"(jks l true)",lit("}")))
eq("jt_sp","(l IL)","(jtext (vsp l))",cat(lit("{"),"(jis l true)",lit("}")))
sep="(ite f (bsub (unit 44) 0 0) (unit 44))"
E="emptyb"
for n,S,nil,c,pre,vs in (("jls","VL","vln","(vlc h t)",[],"(h V) (t VL)"),("jks","KL","kln","(klc k h t)",["(jsonq k false)",lit(": ")],"(k Bytes) (h V) (t KL)"),("jis","IL","iln","(ilc k h t)",[Q,"(itoa k)",lit('": ')],"(k Int) (h V) (t IL)")):
    eq(n+"_n","(f Bool)","(%s %s f)"%(n,nil),E)
    eq(n+"_f",vs,"(%s %s true)"%(n,c),cat(*pre,"(jtext h)","(%s t false)"%n))
    eq(n+"_c",vs,"(%s %s false)"%(n,c),cat(lit(","),*pre,"(jtext h)","(%s t false)"%n))
out.append('''; plain ASCII that needs no escape
(define-fun plainc ((c Int)) Bool (and (<= 32 c) (< c 127) (not (= c 34)) (not (= c 92))))
(declare-fun plain (Bytes) Bool)
(declare-fun plainbad (Bytes) Int)''')
ax("plain_1","(s Bytes)","(or (plain s) (and (<= 0 (plainbad s)) (< (plainbad s) (blen s)) (not (plainc (at s (plainbad s))))))","(plain s)")
ax("plain_2","(s Bytes) (k Int)","(=> (and (plain s) (<= 0 k) (< k (blen s))) (plainc (at s k)))","(plain s) (at s k)")
ax("plain_u","(c Int)","(=> (plainc c) (plain (unit c)))","(plain (unit c))")
ax("plain_a","(a Bytes) (b Bytes)","(=> (and (plain a) (plain b)) (plain (app a b)))","(plain (app a b))")
ax("plain_h","(b Bytes)","(plain (hexenc b))","(plain (hexenc b))")
ax("plain_b","(e Int) (b Bytes)","(plain (b64enc e b))","(plain (b64enc e b))")
ax("plain_i","(i Int)","(plain (itoa i))","(plain (itoa i))")
ax("plain_ht","(n Int)","(plain (hextext n))","(bigbytes n)")
ax("plain_hs","(n Int)","(plain (hexsign n))","(bigbytes n)")
ax("plain_et","(n Int)","(plain (exptext n))","(minbe n)")
ax("plain_bt","(n Int)","(plain (bigtext n))","(bigbytes n)")
ax("plain_dt","(d Dec)","(plain (dectext d))","(dcoef d) (dexp d)")
ax("plain_rt","(b Bytes)","(plain (rawtext b))","(b64 b)")
ax("plain_xt","(b Bytes)","(plain (exttext b))","(b64 b)")
ax("goquote_1","(s Bytes)","(=> (plain s) (= (goquote s) (quoted s)))","(goquote s)")
ax("b64_2","(e Int) (b Bytes) (k Int)","(=> (and (<= 0 k) (< k (blen (b64enc e b)))) (plainc (at (b64enc e b) k)))","(at (b64enc e b) k)")
out.append('''; the grammar of JSON: whatever these rules derive
(declare-fun json (Bytes) Bool)
(declare-fun jstr (Bytes) Bool)
(declare-fun jnum (Bytes) Bool)
(declare-fun jtail (Bytes) Bool)
(declare-fun jmtail (Bytes) Bool)
(declare-fun jgram (Bytes Bytes Bytes) Bool)''')
ax("json_lit!","","(and (json %s) (json %s) (json %s))"%(lit("null"),lit("true"),lit("false")),"")
ax("json_str!","(s Bytes)","(=> (jstr s) (json s))","(jstr s)")
ax("json_num!","(s Bytes)","(=> (jnum s) (json s))","(jnum s)")
ax("jstr_plain!","(s Bytes)","(=> (plain s) (jstr (quoted s)))","(plain s)")
ax("jstr_q!","(s Bytes)","(jstr (jsonq s false))","(jsonq s false)")
ax("jnum_int!","(i Int)","(jnum (itoa i))","(itoa i)")
ax("jnum_f!","(d F64)","(=> (not (or (isnan d) (isinf d 0))) (jnum (ftext d)))","(ftext d)")
ax("json_empty!","","(and (json %s) (json %s) (jtail emptyb) (jmtail emptyb) (= %s %s))"%(cat(lit("["),lit("]")),cat(lit("{"),lit("}")),lit('": '),cat(Q,lit(": "))),"")
T=lambda k: "(jgram k x r)"
ax("json_arr!","(x Bytes) (r Bytes)","(=> (and (json x) (jtail r)) (and (json %s) (jtail %s)))"%(cat(lit("["),"x","r",lit("]")),cat(lit(","),"x","r")),"(jgram emptyb x r)")
ax("json_obj!","(k Bytes) (x Bytes) (r Bytes)","(=> (and (jstr k) (json x) (jmtail r)) (and (json %s) (jmtail %s)))"%(cat(lit("{"),"k",lit(": "),"x","r",lit("}")),cat(lit(","),"k",lit(": "),"x","r")),"(jgram k x r)")
out.append("(declare-fun jsonlem (V) Bool)")
for n,vs,t in (("null","","vnull"),("bool","(b Bool)","(vbool b)"),("long","(i Int)","(vlong i)"),("dbl","(d F64)","(vdbl d)"),("big","(n Int)","(vbig n)"),("dec","(d Dec)","(vdec d)"),("str","(s Bytes)","(vstr s)"),("raw","(b Bytes)","(vraw b)"),("ext","(b Bytes)","(vext b)")):
    ax("json_"+n,vs,"(json (jtext %s))"%t,"(jtext %s)"%t)
ax("json_all","(a V)","(and (json (jtext a)) (=> ((_ is vlist) a) (jtail (jls (v_list a) false))) (=> ((_ is vmap) a) (jmtail (jks (v_map a) false))) (=> ((_ is vsp) a) (jmtail (jis (v_sp a) false))))","(jsonlem a)")
out.append("; what String returns")
out.append("(declare-fun text (V) Bytes)")
eq("tx_null","","(text vnull)",lit("null"))
eq("tx_bool","(b Bool)","(text (vbool b))","(fmtbool b)")
eq("tx_long","(i Int)","(text (vlong i))","(itoa i)")
eq("tx_dbl","(d F64)","(text (vdbl d))","(ite (isnan d) %s (ftext d))"%lit("NaN"))
eq("tx_big","(n Int)","(text (vbig n))","(bigtext n)")
eq("tx_dec","(d Dec)","(text (vdec d))","(dectext d)")
eq("tx_str","(s Bytes)","(text (vstr s))","s")
eq("tx_raw","(b Bytes)","(text (vraw b))",RAW("b"))
eq("tx_ext","(b Bytes)","(text (vext b))",EXT("b"))
for n,S in (("list","VL"),("map","KL"),("sp","IL")):
    eq("tx_"+n,"(l %s)"%S,"(text (v%s l))"%n,"(jtext (v%s l))"%n)
open("/verif/contracts/05json.smt2","w").write("\n".join(out)+"\n")
