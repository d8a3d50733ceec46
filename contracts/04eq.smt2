; ---------------------------------------------------------------- equality of values (C13)
(declare-fun eqprec () F64)
(declare-fun veq (V V) Bool)
(declare-fun veqd (VL Int V) Bool)
(declare-fun veqk (KL KL) Bool)
(declare-fun veqi (IL IL) Bool)
; element of a dense list, of a sorted sequence of items; last index
(declare-fun vlat (VL Int) V)
(declare-fun ilb (IL Int) Int)
(declare-fun ilget (IL Int) V)
(declare-fun ilast (IL) Int)
(define-fun isstr ((v V)) Bool (or ((_ is vstr) v) ((_ is vraw) v)))
(define-fun strof ((v V)) Bytes (ite ((_ is vstr) v) (v_str v) (v_raw v)))
(define-fun islist ((v V)) Bool (or ((_ is vlist) v) ((_ is vsp) v)))
(define-fun wrap64 ((i Int)) Int (- (mod (+ i 9223372036854775808) 18446744073709551616) 9223372036854775808))
(define-fun illen ((s IL)) Int (ite (or ((_ is iln) s) (< (ilast s) 0)) 0 (wrap64 (+ (ilast s) 1))))
(define-fun llen ((v V)) Int (ite ((_ is vlist) v) (vlen (v_list v)) (illen (v_sp v))))
(define-fun lat ((v V) (i Int)) V (ite ((_ is vlist) v) (vlat (v_list v) i) (ilget (v_sp v) i)))
(define-fun neq ((a V) (b V)) Bool
  (ite (or (and ((_ is vdbl) a) (isnan (v_dbl a))) (and ((_ is vdbl) b) (isnan (v_dbl b)))) false
  (ite (or ((_ is vdbl) a) ((_ is vdbl) b)) (or (feq (ndouble a) (ndouble b)) (flt (fabs (fsub (ndouble a) (ndouble b))) eqprec))
  (ite (or ((_ is vdec) a) ((_ is vdec) b)) (= (dnum (ndec a)) (dnum (ndec b)))
  (ite (or ((_ is vbig) a) ((_ is vbig) b)) (= (nbig a) (nbig b)) (= (nlong a) (nlong b)))))))
(assert (! (forall ((a V) (b V)) (! (= (veq a b)
  (ite ((_ is vnull) a) ((_ is vnull) b)
  (ite ((_ is vbool) a) (and ((_ is vbool) b) (= (v_bool a) (v_bool b)))
  (ite (isnum a) (and (isnum b) (neq a b))
  (ite (isstr a) (and (isstr b) (= (strof a) (strof b)))
  (ite ((_ is vext) a) (and ((_ is vext) b) (= (v_ext a) (v_ext b)))
  (ite ((_ is vlist) a) (and (islist b) (= (vlen (v_list a)) (llen b)) (veqd (v_list a) 0 b))
  (ite ((_ is vsp) a) (ite ((_ is vsp) b) (veqi (v_sp a) (v_sp b)) (and ((_ is vlist) b) (= (vlen (v_list b)) (llen a)) (veqd (v_list b) 0 a)))
  (and ((_ is vmap) b) (veqk (v_map a) (v_map b))))))))))) :pattern ((veq a b)))) :named veq_def))
(assert (! (forall ((n Int) (o V)) (! (veqd vln n o) :pattern ((veqd vln n o)))) :named veqd_n))
(assert (! (forall ((h V) (t VL) (n Int) (o V)) (! (= (veqd (vlc h t) n o) (and (veq h (lat o n)) (veqd t (+ n 1) o))) :pattern ((veqd (vlc h t) n o)))) :named veqd_c))
(assert (! (forall ((a KL) (b KL)) (! (= (veqk a b) (or (and ((_ is kln) a) ((_ is kln) b)) (and ((_ is klc) a) ((_ is klc) b) (= (kl_k a) (kl_k b)) (veq (kl_v a) (kl_v b)) (veqk (kl_t a) (kl_t b))))) :pattern ((veqk a b)))) :named veqk_def))
(assert (! (forall ((a IL) (b IL)) (! (= (veqi a b) (or (and ((_ is iln) a) ((_ is iln) b)) (and ((_ is ilc) a) ((_ is ilc) b) (= (il_k a) (il_k b)) (veq (il_v a) (il_v b)) (veqi (il_t a) (il_t b))))) :pattern ((veqi a b)))) :named veqi_def))
(assert (! (forall ((i Int)) (! (= (vlat vln i) vnull) :pattern ((vlat vln i)))) :named vlat_n))
(assert (! (forall ((h V) (t VL) (i Int)) (! (= (vlat (vlc h t) i) (ite (= i 0) h (ite (< i 0) vnull (vlat t (- i 1))))) :pattern ((vlat (vlc h t) i)))) :named vlat_c!))
(assert (! (forall ((k Int)) (! (= (ilb iln k) 0) :pattern ((ilb iln k)))) :named ilb_n))
(assert (! (forall ((j Int) (h V) (t IL) (k Int)) (! (= (ilb (ilc j h t) k) (ite (< j k) (+ 1 (ilb t k)) 0)) :pattern ((ilb (ilc j h t) k)))) :named ilb_c!))
(assert (! (forall ((k Int)) (! (= (ilget iln k) vnull) :pattern ((ilget iln k)))) :named ilget_n))
(assert (! (forall ((j Int) (h V) (t IL) (k Int)) (! (= (ilget (ilc j h t) k) (ite (< j k) (ilget t k) (ite (= j k) h vnull))) :pattern ((ilget (ilc j h t) k)))) :named ilget_c!))
(assert (! (forall ((j Int) (h V) (t IL)) (! (= (ilast (ilc j h t)) (ite ((_ is iln) t) j (ilast t))) :pattern ((ilast (ilc j h t))))) :named ilast_c!))
; consequences for sequences in arrays, proved by induction (50equal.gvc)
(assert (! (forall ((a (Array Int Iface)) (o Int) (n Int) (i Int)) (! (= (vlat (vseq a o n) i) (ite (and (<= 0 i) (< i n)) (view (select a (+ o i))) vnull)) :pattern ((vlat (vseq a o n) i)))) :named vlat_seq))
(assert (! (forall ((a (Array Int Iface)) (o Int) (n Int) (k Int)) (! (let ((p (ilb (iseq a o n) k))) (and (<= 0 p) (=> (<= 0 n) (<= p n)) (=> (> p 0) (< (fikey (select a (- (+ o p) 1))) k)) (=> (< p n) (>= (fikey (select a (+ o p))) k)))) :pattern ((ilb (iseq a o n) k)))) :named ilb_seq))
(assert (! (forall ((a (Array Int Iface)) (o Int) (n Int) (k Int)) (! (let ((p (ilb (iseq a o n) k))) (= (ilget (iseq a o n) k) (ite (and (< p n) (= (fikey (select a (+ o p))) k)) (view (fival (select a (+ o p)))) vnull))) :pattern ((ilget (iseq a o n) k)))) :named ilget_seq))
(assert (! (forall ((a (Array Int Iface)) (o Int) (n Int)) (! (=> (> n 0) (= (ilast (iseq a o n)) (fikey (select a (- (+ o n) 1))))) :pattern ((ilast (iseq a o n))))) :named ilast_seq))
; equal sequences have the same length and the same last index
(assert (! (forall ((a KL) (b KL)) (! (=> (veqk a b) (= (klen a) (klen b))) :pattern ((veqk a b)))) :named veqk_len))
(assert (! (forall ((a IL) (b IL)) (! (=> (veqi a b) (and (= (ilen a) (ilen b)) (= ((_ is iln) a) ((_ is iln) b)) (=> ((_ is ilc) a) (= (ilast a) (ilast b))))) :pattern ((veqi a b)))) :named veqi_len))
; sizes
(declare-fun vsz (V) Int)
(declare-fun vlsz (VL) Int)
(declare-fun klsz (KL) Int)
(declare-fun ilsz (IL) Int)
(assert (! (forall ((a V)) (! (and (>= (vsz a) 1) (= (vsz a) (ite ((_ is vlist) a) (+ 1 (vlsz (v_list a))) (ite ((_ is vmap) a) (+ 1 (klsz (v_map a))) (ite ((_ is vsp) a) (+ 1 (ilsz (v_sp a))) 1))))) :pattern ((vsz a)))) :named vsz_def))
(assert (! (forall ((l VL)) (! (and (>= (vlsz l) 0) (= (vlsz l) (ite ((_ is vlc) l) (+ (vsz (vl_h l)) (vlsz (vl_t l))) 0))) :pattern ((vlsz l)))) :named vlsz_def))
(assert (! (forall ((l KL)) (! (and (>= (klsz l) 0) (= (klsz l) (ite ((_ is klc) l) (+ (vsz (kl_v l)) (klsz (kl_t l))) 0))) :pattern ((klsz l)))) :named klsz_def))
(assert (! (forall ((l IL)) (! (and (>= (ilsz l) 0) (= (ilsz l) (ite ((_ is ilc) l) (+ (vsz (il_v l)) (ilsz (il_t l))) 0))) :pattern ((ilsz l)))) :named ilsz_def))
(assert (! (forall ((l VL) (i Int)) (! (=> (and (<= 0 i) (< i (vlen l))) (<= (vsz (vlat l i)) (vlsz l))) :pattern ((vsz (vlat l i))))) :named vlat_sz))
(assert (! (forall ((s IL) (k Int)) (! (<= (vsz (ilget s k)) (+ 1 (ilsz s))) :pattern ((vsz (ilget s k))))) :named ilget_sz))
; dense lists are equal where all elements are
(declare-fun vdiff (VL Int V) Int)
(assert (! (forall ((n Int) (o V)) (! (= (vdiff vln n o) 0) :pattern ((vdiff vln n o)))) :named vdiff_n))
(assert (! (forall ((h V) (t VL) (n Int) (o V)) (! (= (vdiff (vlc h t) n o) (ite (veq h (lat o n)) (+ 1 (vdiff t (+ n 1) o)) 0)) :pattern ((vdiff (vlc h t) n o)))) :named vdiff_c))
(declare-fun veqat (VL Int V Int) Bool)
(assert (! (forall ((l VL) (n Int) (o V) (i Int)) (! (=> (and (veqd l n o) (<= 0 i) (< i (vlen l))) (veq (vlat l i) (lat o (+ n i)))) :pattern ((veqat l n o i)))) :named veqd_elim))
(assert (! (forall ((l VL) (n Int) (o V)) (! (let ((d (vdiff l n o))) (or (veqd l n o) (and (<= 0 d) (< d (vlen l)) (not (veq (vlat l d) (lat o (+ n d))))))) :pattern ((veqd l n o) (vdiff l n o)))) :named veqd_intro))
(declare-fun eqlem (V V) Bool)
(assert (! (forall ((a V) (b V)) (! (= (veq a b) (veq b a)) :pattern ((eqlem a b)))) :named veq_sym))
(declare-fun nonan (V) Bool)
(declare-fun nonanl (VL) Bool)
(declare-fun nonank (KL) Bool)
(declare-fun nonani (IL) Bool)
(assert (! (forall ((a V)) (! (= (nonan a) (ite ((_ is vdbl) a) (not (isnan (v_dbl a))) (ite ((_ is vlist) a) (nonanl (v_list a)) (ite ((_ is vmap) a) (nonank (v_map a)) (ite ((_ is vsp) a) (nonani (v_sp a)) true))))) :pattern ((nonan a)))) :named nonan_def))
(assert (! (forall ((l VL)) (! (= (nonanl l) (=> ((_ is vlc) l) (and (nonan (vl_h l)) (nonanl (vl_t l))))) :pattern ((nonanl l)))) :named nonanl_def))
(assert (! (forall ((l KL)) (! (= (nonank l) (=> ((_ is klc) l) (and (nonan (kl_v l)) (nonank (kl_t l))))) :pattern ((nonank l)))) :named nonank_def))
(assert (! (forall ((l IL)) (! (= (nonani l) (=> ((_ is ilc) l) (and (nonan (il_v l)) (nonani (il_t l))))) :pattern ((nonani l)))) :named nonani_def))
(assert (! (forall ((l VL) (i Int)) (! (=> (and (nonanl l) (<= 0 i) (< i (vlen l))) (nonan (vlat l i))) :pattern ((nonan (vlat l i))))) :named nonan_at))
(assert (! (forall ((a V)) (! (=> (nonan a) (veq a a)) :pattern ((eqlem a a)))) :named veq_refl))
; numbers of exact types
(define-fun isexact ((v V)) Bool (or ((_ is vlong) v) ((_ is vbig) v) ((_ is vdec) v)))
(define-fun numval ((v V)) Real (ite ((_ is vlong) v) (to_real (v_long v)) (ite ((_ is vbig) v) (to_real (v_big v)) (dnum (v_dec v)))))
(assert (! (forall ((a V) (b V)) (! (=> (and (isexact a) (isexact b)) (= (neq a b) (= (numval a) (numval b)))) :pattern ((eqlem a b)))) :named neq_exact))
(assert (! (forall ((a F64) (b F64) (p F64)) (! (=> (and (isinf a 0) (not (isinf p 0)) (not (isnan p))) (and (not (flt (fabs (fsub a b)) p)) (=> (feq a b) (isinf b 0)))) :pattern ((flt (fabs (fsub a b)) p)))) :named finf_1))
(assert (! (forall ((a V) (b V)) (! (=> (and (isnum a) (isnum b) (isinf (ndouble a) 0) (not (isinf eqprec 0)) (not (isnan eqprec)) (or ((_ is vdbl) a) ((_ is vdbl) b)) (neq a b)) (and (isinf (ndouble b) 0) (feq (ndouble a) (ndouble b)))) :pattern ((eqlem a b)))) :named neq_inf))
