; ---------------------------------------------------------------- values as trees
(declare-datatypes ((V 0) (VL 0) (KL 0) (IL 0)) (
  ((vnull) (vbool (v_bool Bool)) (vlong (v_long Int)) (vdbl (v_dbl F64)) (vstr (v_str Bytes)) (vraw (v_raw Bytes)) (vbig (v_big Int)) (vdec (v_dec Dec)) (vext (v_ext Bytes)) (vlist (v_list VL)) (vmap (v_map KL)) (vsp (v_sp IL)))
  ((vln) (vlc (vl_h V) (vl_t VL)))
  ((kln) (klc (kl_k Bytes) (kl_v V) (kl_t KL)))
  ((iln) (ilc (il_k Int) (il_v V) (il_t IL)))))
(declare-fun vlen (VL) Int)
(declare-fun klen (KL) Int)
(declare-fun ilen (IL) Int)
(assert (forall ((l VL)) (! (and (>= (vlen l) 0) (= (> (vlen l) 0) ((_ is vlc) l))) :pattern ((vlen l)))))
(assert (forall ((l VL)) (! (=> ((_ is vlc) l) (= (vlen l) (+ 1 (vlen (vl_t l))))) :pattern ((vlen l) (vl_t l)))))
(assert (forall ((l VL)) (! (=> ((_ is vlc) l) (= (vlen l) (+ 1 (vlen (vl_t l))))) :pattern ((vlen l) (vlen (vl_t l))))))
(assert (forall ((l KL)) (! (and (>= (klen l) 0) (= (> (klen l) 0) ((_ is klc) l))) :pattern ((klen l)))))
(assert (forall ((l KL)) (! (=> ((_ is klc) l) (= (klen l) (+ 1 (klen (kl_t l))))) :pattern ((klen l) (kl_t l)))))
(assert (forall ((l KL)) (! (=> ((_ is klc) l) (= (klen l) (+ 1 (klen (kl_t l))))) :pattern ((klen l) (klen (kl_t l))))))
(assert (forall ((l IL)) (! (and (>= (ilen l) 0) (= (> (ilen l) 0) ((_ is ilc) l))) :pattern ((ilen l)))))
(assert (forall ((l IL)) (! (=> ((_ is ilc) l) (= (ilen l) (+ 1 (ilen (il_t l))))) :pattern ((ilen l) (il_t l)))))
(assert (forall ((l IL)) (! (=> ((_ is ilc) l) (= (ilen l) (+ 1 (ilen (il_t l))))) :pattern ((ilen l) (ilen (il_t l))))))
; ---------------------------------------------------------------- the heap that values are viewed in
(declare-fun FHV () (Array Int (Array Int Iface)))
(declare-fun FHE () (Array Int (Array Int Iface)))
(declare-fun FHI () (Array Int (Array Int Iface)))
(declare-fun FHB () (Array Int (Array Int Int)))
(declare-fun FHbig () (Array Int Int))
(declare-fun FHiek () (Array Int Bytes))
(declare-fun FHiev () (Array Int Iface))
(declare-fun FHmek () (Array Int Bytes))
(declare-fun FHmev () (Array Int Iface))
(declare-fun FHiik () (Array Int Int))
(declare-fun FHiiv () (Array Int Iface))
(declare-fun FHmik () (Array Int Int))
(declare-fun FHmiv () (Array Int Iface))
(declare-fun view (Iface) V)
; sequences of elements of arrays
(declare-fun vseq ((Array Int Iface) Int Int) VL)
(declare-fun kseq ((Array Int Iface) Int Int) KL)
(declare-fun iseq ((Array Int Iface) Int Int) IL)
(define-fun fekey ((e Iface)) Bytes (ite ((_ is i_p_immutableMapEntry) e) (select FHiek (pl_p_immutableMapEntry_0 e)) (select FHmek (pl_p_mutableMapEntry_0 e))))
(define-fun feval ((e Iface)) Iface (ite ((_ is i_p_immutableMapEntry) e) (select FHiev (pl_p_immutableMapEntry_0 e)) (select FHmev (pl_p_mutableMapEntry_0 e))))
(define-fun fikey ((e Iface)) Int (ite ((_ is i_p_immutableListItem) e) (select FHiik (pl_p_immutableListItem_0 e)) (select FHmik (pl_p_mutableListItem_0 e))))
(define-fun fival ((e Iface)) Iface (ite ((_ is i_p_immutableListItem) e) (select FHiiv (pl_p_immutableListItem_0 e)) (select FHmiv (pl_p_mutableListItem_0 e))))
(assert (forall ((x Iface)) (! (and
  (=> ((_ is i_nil) x) (= (view x) vnull))
  (=> ((_ is i_nullValue) x) (= (view x) vnull))
  (=> ((_ is i_boolValue) x) (= (view x) (vbool (pl_boolValue_0 x))))
  (=> ((_ is i_longNumber) x) (= (view x) (vlong (pl_longNumber_0 x))))
  (=> ((_ is i_doubleNumber) x) (= (view x) (vdbl (pl_doubleNumber_0 x))))
  (=> ((_ is i_bigIntNumber) x) (= (view x) (vbig (select FHbig (pl_bigIntNumber_0 x)))))
  (=> ((_ is i_decimalNumber) x) (= (view x) (vdec (pl_decimalNumber_0 x))))
  (=> ((_ is i_uft8String) x) (= (view x) (vstr (pl_uft8String_0 x))))
  (=> ((_ is i_rawString) x) (= (view x) (vraw (let ((s (pl_rawString_0 x))) (mkb (select FHB (s_arr s)) (s_off s) (s_len s))))))
  (=> ((_ is i_unknownValue) x) (= (view x) (vext (let ((s (pl_unknownValue_0 x))) (mkb (select FHB (s_arr s)) (s_off s) (s_len s))))))
  (=> ((_ is i_immutableListValue) x) (= (view x) (vlist (let ((s (pl_immutableListValue_0 x))) (vseq (select FHV (s_arr s)) (s_off s) (s_len s))))))
  (=> ((_ is i_solidListValue) x) (= (view x) (vlist (let ((s (pl_solidListValue_0 x))) (vseq (select FHV (s_arr s)) (s_off s) (s_len s))))))
  (=> ((_ is i_immutableMapValue) x) (= (view x) (vmap (let ((s (pl_immutableMapValue_0 x))) (kseq (select FHE (s_arr s)) (s_off s) (s_len s))))))
  (=> ((_ is i_sortedMapValue) x) (= (view x) (vmap (let ((s (pl_sortedMapValue_0 x))) (kseq (select FHE (s_arr s)) (s_off s) (s_len s))))))
  (=> ((_ is i_sparseListValue) x) (= (view x) (vsp (let ((s (pl_sparseListValue_0 x))) (iseq (select FHI (s_arr s)) (s_off s) (s_len s))))))
  ) :pattern ((view x)))))
; unfolded where an element is looked at
(assert (forall ((a (Array Int Iface)) (o Int) (n Int)) (! (=> (<= n 0) (= (vseq a o n) vln)) :pattern ((vseq a o n)))))
(assert (forall ((a (Array Int Iface)) (o Int) (n Int)) (! (=> (> n 0) (= (vseq a o n) (vlc (view (select a o)) (vseq a (+ o 1) (- n 1))))) :pattern ((vseq a o n) (select a o)))))
(assert (forall ((a (Array Int Iface)) (o Int) (n Int)) (! (= (vlen (vseq a o n)) (ite (> n 0) n 0)) :pattern ((vlen (vseq a o n))))))
(assert (forall ((a (Array Int Iface)) (o Int) (n Int)) (! (=> (<= n 0) (= (kseq a o n) kln)) :pattern ((kseq a o n)))))
(assert (forall ((a (Array Int Iface)) (o Int) (n Int)) (! (=> (> n 0) (= (kseq a o n) (klc (fekey (select a o)) (view (feval (select a o))) (kseq a (+ o 1) (- n 1))))) :pattern ((kseq a o n) (select a o)))))
(assert (forall ((a (Array Int Iface)) (o Int) (n Int)) (! (= (klen (kseq a o n)) (ite (> n 0) n 0)) :pattern ((klen (kseq a o n))))))
(assert (forall ((a (Array Int Iface)) (o Int) (n Int)) (! (=> (<= n 0) (= (iseq a o n) iln)) :pattern ((iseq a o n)))))
(assert (forall ((a (Array Int Iface)) (o Int) (n Int)) (! (=> (> n 0) (= (iseq a o n) (ilc (fikey (select a o)) (view (fival (select a o))) (iseq a (+ o 1) (- n 1))))) :pattern ((iseq a o n) (select a o)))))
(assert (forall ((a (Array Int Iface)) (o Int) (n Int)) (! (= (ilen (iseq a o n)) (ite (> n 0) n 0)) :pattern ((ilen (iseq a o n))))))
; sequences sorted by key, as sort.Sort leaves them
(declare-fun ksort (KL) KL)
(declare-fun isort (IL) IL)
(assert (forall ((l KL)) (! (= (klen (ksort l)) (klen l)) :pattern ((ksort l)))))
(assert (forall ((l IL)) (! (= (ilen (isort l)) (ilen l)) :pattern ((isort l)))))
; ---------------------------------------------------------------- MessagePack (C02)
(define-fun byteof ((n Int) (k Int)) Int (mod (div n k) 256))
(define-fun be16 ((n Int)) Bytes (app (unit (mod (div n 256) 256)) (unit (mod n 256))))
(define-fun be32 ((n Int)) Bytes (app (unit (mod (div n 16777216) 256)) (app (unit (mod (div n 65536) 256)) (app (unit (mod (div n 256) 256)) (unit (mod n 256))))))
(define-fun be64 ((n Int)) Bytes (app (unit (mod (div n 72057594037927936) 256)) (app (unit (mod (div n 281474976710656) 256)) (app (unit (mod (div n 1099511627776) 256)) (app (unit (mod (div n 4294967296) 256))
  (app (unit (mod (div n 16777216) 256)) (app (unit (mod (div n 65536) 256)) (app (unit (mod (div n 256) 256)) (unit (mod n 256))))))))))
(define-fun elong ((i Int)) Bytes
  (ite (and (<= (- 32) i) (<= i 127)) (unit (mod i 256))
  (ite (and (<= 0 i) (<= i 255)) (app (unit 204) (unit (mod i 256)))
  (ite (and (<= 0 i) (<= i 65535)) (app (unit 205) (be16 i))
  (ite (and (<= 0 i) (<= i 4294967295)) (app (unit 206) (be32 i))
  (ite (<= 0 i) (app (unit 207) (be64 i))
  (ite (<= (- 128) i) (app (unit 208) (unit (mod i 256)))
  (ite (<= (- 32768) i) (app (unit 209) (be16 i))
  (ite (<= (- 2147483648) i) (app (unit 210) (be32 i))
  (app (unit 211) (be64 i)))))))))))
(define-fun edouble ((d F64)) Bytes (app (unit 203) (be64 (fbits d))))
(define-fun estrh ((n Int)) Bytes
  (ite (< n 32) (unit (+ 160 n)) (ite (< n 256) (app (unit 217) (unit n)) (ite (< n 65536) (app (unit 218) (be16 n)) (app (unit 219) (be32 n))))))
(define-fun ebinh ((n Int)) Bytes
  (ite (< n 256) (app (unit 196) (unit n)) (ite (< n 65536) (app (unit 197) (be16 n)) (app (unit 198) (be32 n)))))
(define-fun eexth ((n Int) (t Int)) Bytes
  (ite (= n 1) (app (unit 212) (unit t)) (ite (= n 2) (app (unit 213) (unit t)) (ite (= n 4) (app (unit 214) (unit t)) (ite (= n 8) (app (unit 215) (unit t)) (ite (= n 16) (app (unit 216) (unit t))
  (ite (< n 256) (app (unit 199) (app (unit n) (unit t))) (ite (< n 65536) (app (unit 200) (app (be16 n) (unit t))) (app (unit 201) (app (be32 n) (unit t)))))))))))
(define-fun earrh ((n Int)) Bytes
  (ite (< n 16) (unit (+ 144 n)) (ite (< n 65536) (app (unit 220) (be16 n)) (app (unit 221) (be32 n)))))
(define-fun emaph ((n Int)) Bytes
  (ite (< n 16) (unit (+ 128 n)) (ite (< n 65536) (app (unit 222) (be16 n)) (app (unit 223) (be32 n)))))
(declare-fun gobenc (Int) Bytes)
(declare-fun decenc (Dec) Bytes)
(declare-fun enc (V) Bytes)
(declare-fun encs (VL) Bytes)
(declare-fun enck (KL) Bytes)
(declare-fun enci (IL) Bytes)
(define-fun emptyb () Bytes (bsub (unit 0) 0 0))
(assert (! (= (blen emptyb) 0) :named blen_emptyb))
(assert (! (= (enc vnull) (unit 192)) :named enc_null))
(assert (! (forall ((b Bool)) (! (= (enc (vbool b)) (unit (ite b 195 194))) :pattern ((enc (vbool b))))) :named enc_bool))
(assert (! (forall ((i Int)) (! (= (enc (vlong i)) (elong i)) :pattern ((enc (vlong i))))) :named enc_long))
(assert (! (forall ((d F64)) (! (= (enc (vdbl d)) (edouble d)) :pattern ((enc (vdbl d))))) :named enc_dbl))
(assert (! (forall ((s Bytes)) (! (= (enc (vstr s)) (app (estrh (blen s)) s)) :pattern ((enc (vstr s))))) :named enc_str))
(assert (! (forall ((s Bytes)) (! (= (enc (vraw s)) (app (ebinh (blen s)) s)) :pattern ((enc (vraw s))))) :named enc_raw))
(assert (! (forall ((i Int)) (! (= (enc (vbig i)) (app (eexth (blen (gobenc i)) 1) (gobenc i))) :pattern ((enc (vbig i))))) :named enc_big))
(assert (! (forall ((d Dec)) (! (= (enc (vdec d)) (app (eexth (blen (decenc d)) 2) (decenc d))) :pattern ((enc (vdec d))))) :named enc_dec))
(assert (! (forall ((s Bytes)) (! (= (enc (vext s)) (app (eexth (- (blen s) 1) (at s 0)) (bsub s 1 (blen s)))) :pattern ((enc (vext s))))) :named enc_ext))
(assert (! (forall ((l VL)) (! (= (enc (vlist l)) (app (earrh (vlen l)) (encs l))) :pattern ((enc (vlist l))))) :named enc_list))
(assert (! (forall ((l KL)) (! (= (enc (vmap l)) (app (emaph (klen l)) (enck l))) :pattern ((enc (vmap l))))) :named enc_map))
(assert (! (forall ((l IL)) (! (= (enc (vsp l)) (app (emaph (ilen l)) (enci l))) :pattern ((enc (vsp l))))) :named enc_sp))
(assert (! (= (blen (encs vln)) 0) :named encs_n))
(assert (! (= (blen (enck kln)) 0) :named enck_n))
(assert (! (= (blen (enci iln)) 0) :named enci_n))
(assert (! (forall ((h V) (t VL)) (! (= (encs (vlc h t)) (app (enc h) (encs t))) :pattern ((encs (vlc h t))))) :named encs_c))
(assert (! (forall ((k Bytes) (h V) (t KL)) (! (= (enck (klc k h t)) (app (estrh (blen k)) (app k (app (enc h) (enck t))))) :pattern ((enck (klc k h t))))) :named enck_c))
(assert (! (forall ((k Int) (h V) (t IL)) (! (= (enci (ilc k h t)) (app (elong k) (app (enc h) (enci t)))) :pattern ((enci (ilc k h t))))) :named enci_c))

(declare-fun hexenc (Bytes) Bytes)
(assert (forall ((s Bytes)) (! (= (blen (hexenc s)) (* 2 (blen s))) :pattern ((hexenc s)))))
(assert (forall ((d F64)) (! (and (<= 0 (fbits d)) (< (fbits d) 18446744073709551616)) :pattern ((fbits d)))))
; encodings of a sequence of values
(declare-fun encvs (VS) Bytes)
(assert (! (= (blen (encvs vs_nil)) 0) :named encvs_n))
(assert (! (forall ((h Iface) (t VS)) (! (= (encvs (vs_cons h t)) (app (enc (view h)) (encvs t))) :pattern ((encvs (vs_cons h t))))) :named encvs_c))
(assert (! (forall ((s VS)) (! (=> ((_ is vs_cons) s) (= (encvs s) (app (enc (view (vs_hd s))) (encvs (vs_tl s))))) :pattern ((encvs s)))) :named encvs_u))
