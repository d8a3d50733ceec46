; ---------------------------------------------------------------- texts of values (C14, C12, C06)
(declare-fun ext_base64_RawStdEncoding () Int)
(declare-fun jtext (V) Bytes)
; what follows in a list, a map, a sparse list; true before the first element
(declare-fun jls (VL Bool) Bytes)
(declare-fun jks (KL Bool) Bytes)
(declare-fun jis (IL Bool) Bytes)
(define-fun b64 ((b Bytes)) Bytes (b64enc ext_base64_RawStdEncoding b))
(define-fun rawtext ((b Bytes)) Bytes (app lit!6261736536342c (b64 b)))
(define-fun exttext ((b Bytes)) Bytes (app lit!646174613a6170706c69636174696f6e2f782d6d73677061636b2d6578743b6261736536342c (b64 b)))
(define-fun quoted ((b Bytes)) Bytes (app lit!22 (app b lit!22)))
(assert (! (= (jtext vnull) lit!6e756c6c) :named jt_null))
(assert (! (forall ((b Bool)) (! (= (jtext (vbool b)) (fmtbool b)) :pattern ((jtext (vbool b))))) :named jt_bool))
(assert (! (forall ((i Int)) (! (= (jtext (vlong i)) (itoa i)) :pattern ((jtext (vlong i))))) :named jt_long))
(assert (! (forall ((d F64)) (! (= (jtext (vdbl d)) (ite (or (isnan d) (isinf d 0)) lit!6e756c6c (ftext d))) :pattern ((jtext (vdbl d))))) :named jt_dbl))
(assert (! (forall ((n Int)) (! (= (jtext (vbig n)) (app lit!22 (app (bigtext n) lit!22))) :pattern ((jtext (vbig n))))) :named jt_big))
(assert (! (forall ((d Dec)) (! (= (jtext (vdec d)) (app lit!22 (app (dectext d) lit!22))) :pattern ((jtext (vdec d))))) :named jt_dec))
(assert (! (forall ((s Bytes)) (! (= (jtext (vstr s)) (jsonq s false)) :pattern ((jtext (vstr s))))) :named jt_str))
(assert (! (forall ((b Bytes)) (! (= (jtext (vraw b)) (app lit!22 (app (app lit!6261736536342c (b64enc ext_base64_RawStdEncoding b)) lit!22))) :pattern ((jtext (vraw b))))) :named jt_raw))
(assert (! (forall ((b Bytes)) (! (= (jtext (vext b)) (app lit!22 (app (app lit!646174613a6170706c69636174696f6e2f782d6d73677061636b2d6578743b6261736536342c (b64enc ext_base64_RawStdEncoding b)) lit!22))) :pattern ((jtext (vext b))))) :named jt_ext))
(assert (! (forall ((l VL)) (! (= (jtext (vlist l)) (app lit!5b (app (jls l true) lit!5d))) :pattern ((jtext (vlist l))))) :named jt_list))
(assert (! (forall ((l KL)) (! (= (jtext (vmap l)) (app lit!7b (app (jks l true) lit!7d))) :pattern ((jtext (vmap l))))) :named jt_map))
(assert (! (forall ((l IL)) (! (= (jtext (vsp l)) (app lit!7b (app (jis l true) lit!7d))) :pattern ((jtext (vsp l))))) :named jt_sp))
(assert (! (forall ((f Bool)) (! (= (jls vln f) emptyb) :pattern ((jls vln f)))) :named jls_n))
(assert (! (forall ((h V) (t VL)) (! (= (jls (vlc h t) true) (app (jtext h) (jls t false))) :pattern ((jls (vlc h t) true)))) :named jls_f))
(assert (! (forall ((h V) (t VL)) (! (= (jls (vlc h t) false) (app lit!2c (app (jtext h) (jls t false)))) :pattern ((jls (vlc h t) false)))) :named jls_c))
(assert (! (forall ((f Bool)) (! (= (jks kln f) emptyb) :pattern ((jks kln f)))) :named jks_n))
(assert (! (forall ((k Bytes) (h V) (t KL)) (! (= (jks (klc k h t) true) (app (jsonq k false) (app lit!3a20 (app (jtext h) (jks t false))))) :pattern ((jks (klc k h t) true)))) :named jks_f))
(assert (! (forall ((k Bytes) (h V) (t KL)) (! (= (jks (klc k h t) false) (app lit!2c (app (jsonq k false) (app lit!3a20 (app (jtext h) (jks t false)))))) :pattern ((jks (klc k h t) false)))) :named jks_c))
(assert (! (forall ((f Bool)) (! (= (jis iln f) emptyb) :pattern ((jis iln f)))) :named jis_n))
(assert (! (forall ((k Int) (h V) (t IL)) (! (= (jis (ilc k h t) true) (app lit!22 (app (itoa k) (app lit!223a20 (app (jtext h) (jis t false)))))) :pattern ((jis (ilc k h t) true)))) :named jis_f))
(assert (! (forall ((k Int) (h V) (t IL)) (! (= (jis (ilc k h t) false) (app lit!2c (app lit!22 (app (itoa k) (app lit!223a20 (app (jtext h) (jis t false))))))) :pattern ((jis (ilc k h t) false)))) :named jis_c))
; plain ASCII that needs no escape
(define-fun plainc ((c Int)) Bool (and (<= 32 c) (< c 127) (not (= c 34)) (not (= c 92))))
(declare-fun plain (Bytes) Bool)
(declare-fun plainbad (Bytes) Int)
(assert (! (forall ((s Bytes)) (! (or (plain s) (and (<= 0 (plainbad s)) (< (plainbad s) (blen s)) (not (plainc (at s (plainbad s)))))) :pattern ((plain s)))) :named plain_1))
(assert (! (forall ((s Bytes) (k Int)) (! (=> (and (plain s) (<= 0 k) (< k (blen s))) (plainc (at s k))) :pattern ((plain s) (at s k)))) :named plain_2))
(assert (! (forall ((c Int)) (! (=> (plainc c) (plain (unit c))) :pattern ((plain (unit c))))) :named plain_u))
(assert (! (forall ((a Bytes) (b Bytes)) (! (=> (and (plain a) (plain b)) (plain (app a b))) :pattern ((plain (app a b))))) :named plain_a))
(assert (! (forall ((b Bytes)) (! (plain (hexenc b)) :pattern ((plain (hexenc b))))) :named plain_h))
(assert (! (forall ((e Int) (b Bytes)) (! (plain (b64enc e b)) :pattern ((plain (b64enc e b))))) :named plain_b))
(assert (! (forall ((i Int)) (! (plain (itoa i)) :pattern ((plain (itoa i))))) :named plain_i))
(assert (! (forall ((n Int)) (! (plain (hextext n)) :pattern ((bigbytes n)))) :named plain_ht))
(assert (! (forall ((n Int)) (! (plain (hexsign n)) :pattern ((bigbytes n)))) :named plain_hs))
(assert (! (forall ((n Int)) (! (plain (exptext n)) :pattern ((minbe n)))) :named plain_et))
(assert (! (forall ((n Int)) (! (plain (bigtext n)) :pattern ((bigbytes n)))) :named plain_bt))
(assert (! (forall ((d Dec)) (! (plain (dectext d)) :pattern ((dcoef d) (dexp d)))) :named plain_dt))
(assert (! (forall ((b Bytes)) (! (plain (rawtext b)) :pattern ((b64 b)))) :named plain_rt))
(assert (! (forall ((b Bytes)) (! (plain (exttext b)) :pattern ((b64 b)))) :named plain_xt))
(assert (! (forall ((s Bytes)) (! (=> (plain s) (= (goquote s) (quoted s))) :pattern ((goquote s)))) :named goquote_1))
(assert (! (forall ((e Int) (b Bytes) (k Int)) (! (=> (and (<= 0 k) (< k (blen (b64enc e b)))) (plainc (at (b64enc e b) k))) :pattern ((at (b64enc e b) k)))) :named b64_2))
; the grammar of JSON: whatever these rules derive
(declare-fun json (Bytes) Bool)
(declare-fun jstr (Bytes) Bool)
(declare-fun jnum (Bytes) Bool)
(declare-fun jtail (Bytes) Bool)
(declare-fun jmtail (Bytes) Bool)
(declare-fun jgram (Bytes Bytes Bytes) Bool)
(assert (! (and (json lit!6e756c6c) (json lit!74727565) (json lit!66616c7365)) :named json_lit!))
(assert (! (forall ((s Bytes)) (! (=> (jstr s) (json s)) :pattern ((jstr s)))) :named json_str!))
(assert (! (forall ((s Bytes)) (! (=> (jnum s) (json s)) :pattern ((jnum s)))) :named json_num!))
(assert (! (forall ((s Bytes)) (! (=> (plain s) (jstr (quoted s))) :pattern ((plain s)))) :named jstr_plain!))
(assert (! (forall ((s Bytes)) (! (jstr (jsonq s false)) :pattern ((jsonq s false)))) :named jstr_q!))
(assert (! (forall ((i Int)) (! (jnum (itoa i)) :pattern ((itoa i)))) :named jnum_int!))
(assert (! (forall ((d F64)) (! (=> (not (or (isnan d) (isinf d 0))) (jnum (ftext d))) :pattern ((ftext d)))) :named jnum_f!))
(assert (! (and (json (app lit!5b lit!5d)) (json (app lit!7b lit!7d)) (jtail emptyb) (jmtail emptyb) (= lit!223a20 (app lit!22 lit!3a20))) :named json_empty!))
(assert (! (forall ((x Bytes) (r Bytes)) (! (=> (and (json x) (jtail r)) (and (json (app lit!5b (app x (app r lit!5d)))) (jtail (app lit!2c (app x r))))) :pattern ((jgram emptyb x r)))) :named json_arr!))
(assert (! (forall ((k Bytes) (x Bytes) (r Bytes)) (! (=> (and (jstr k) (json x) (jmtail r)) (and (json (app lit!7b (app k (app lit!3a20 (app x (app r lit!7d)))))) (jmtail (app lit!2c (app k (app lit!3a20 (app x r))))))) :pattern ((jgram k x r)))) :named json_obj!))
(declare-fun jsonlem (V) Bool)
(assert (! (json (jtext vnull)) :named json_null))
(assert (! (forall ((b Bool)) (! (json (jtext (vbool b))) :pattern ((jtext (vbool b))))) :named json_bool))
(assert (! (forall ((i Int)) (! (json (jtext (vlong i))) :pattern ((jtext (vlong i))))) :named json_long))
(assert (! (forall ((d F64)) (! (json (jtext (vdbl d))) :pattern ((jtext (vdbl d))))) :named json_dbl))
(assert (! (forall ((n Int)) (! (json (jtext (vbig n))) :pattern ((jtext (vbig n))))) :named json_big))
(assert (! (forall ((d Dec)) (! (json (jtext (vdec d))) :pattern ((jtext (vdec d))))) :named json_dec))
(assert (! (forall ((s Bytes)) (! (json (jtext (vstr s))) :pattern ((jtext (vstr s))))) :named json_str))
(assert (! (forall ((b Bytes)) (! (json (jtext (vraw b))) :pattern ((jtext (vraw b))))) :named json_raw))
(assert (! (forall ((b Bytes)) (! (json (jtext (vext b))) :pattern ((jtext (vext b))))) :named json_ext))
(assert (! (forall ((a V)) (! (and (json (jtext a)) (=> ((_ is vlist) a) (jtail (jls (v_list a) false))) (=> ((_ is vmap) a) (jmtail (jks (v_map a) false))) (=> ((_ is vsp) a) (jmtail (jis (v_sp a) false)))) :pattern ((jsonlem a)))) :named json_all))
; what String returns
(declare-fun text (V) Bytes)
(assert (! (= (text vnull) lit!6e756c6c) :named tx_null))
(assert (! (forall ((b Bool)) (! (= (text (vbool b)) (fmtbool b)) :pattern ((text (vbool b))))) :named tx_bool))
(assert (! (forall ((i Int)) (! (= (text (vlong i)) (itoa i)) :pattern ((text (vlong i))))) :named tx_long))
(assert (! (forall ((d F64)) (! (= (text (vdbl d)) (ite (isnan d) lit!4e614e (ftext d))) :pattern ((text (vdbl d))))) :named tx_dbl))
(assert (! (forall ((n Int)) (! (= (text (vbig n)) (bigtext n)) :pattern ((text (vbig n))))) :named tx_big))
(assert (! (forall ((d Dec)) (! (= (text (vdec d)) (dectext d)) :pattern ((text (vdec d))))) :named tx_dec))
(assert (! (forall ((s Bytes)) (! (= (text (vstr s)) s) :pattern ((text (vstr s))))) :named tx_str))
(assert (! (forall ((b Bytes)) (! (= (text (vraw b)) (app lit!6261736536342c (b64enc ext_base64_RawStdEncoding b))) :pattern ((text (vraw b))))) :named tx_raw))
(assert (! (forall ((b Bytes)) (! (= (text (vext b)) (app lit!646174613a6170706c69636174696f6e2f782d6d73677061636b2d6578743b6261736536342c (b64enc ext_base64_RawStdEncoding b))) :pattern ((text (vext b))))) :named tx_ext))
(assert (! (forall ((l VL)) (! (= (text (vlist l)) (jtext (vlist l))) :pattern ((text (vlist l))))) :named tx_list))
(assert (! (forall ((l KL)) (! (= (text (vmap l)) (jtext (vmap l))) :pattern ((text (vmap l))))) :named tx_map))
(assert (! (forall ((l IL)) (! (= (text (vsp l)) (jtext (vsp l))) :pattern ((text (vsp l))))) :named tx_sp))
