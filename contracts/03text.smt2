; ---------------------------------------------------------------- strings of the standard library
(declare-fun indexbyte (Bytes Int) Int)
(assert (forall ((s Bytes) (c Int)) (! (let ((i (indexbyte s c))) (or (= i (- 1)) (and (<= 0 i) (< i (blen s)) (= (at s i) c)))) :pattern ((indexbyte s c)))))
(assert (forall ((s Bytes) (c Int) (k Int)) (! (=> (and (<= 0 k) (< k (blen s)) (= (at s k) c)) (and (<= 0 (indexbyte s c)) (<= (indexbyte s c) k))) :pattern ((indexbyte s c) (at s k)))))
(define-fun hasprefix ((s Bytes) (p Bytes)) Bool (and (<= (blen p) (blen s)) (= (bsub s 0 (blen p)) p)))
(define-fun hassuffix ((s Bytes) (p Bytes)) Bool (and (<= (blen p) (blen s)) (= (bsub s (- (blen s) (blen p)) (blen s)) p)))
(define-fun trimprefix ((s Bytes) (p Bytes)) Bytes (ite (hasprefix s p) (bsub s (blen p) (blen s)) s))
(define-fun trimsuffix ((s Bytes) (p Bytes)) Bytes (ite (hassuffix s p) (bsub s 0 (- (blen s) (blen p))) s))
(define-fun bcmp ((a Bytes) (b Bytes)) Int (ite (= a b) 0 (ite (blt a b) (- 1) 1)))
(define-fun beq ((a Bytes) (b Bytes)) Bool (= a b))
(assert (! (forall ((a Bytes) (b Bytes) (c Int)) (! (= (indexbyte (app a b) c) (ite (not (= (indexbyte a c) (- 1))) (indexbyte a c) (ite (= (indexbyte b c) (- 1)) (- 1) (+ (blen a) (indexbyte b c))))) :pattern ((indexbyte (app a b) c)))) :named indexbyte_app))
(assert (! (forall ((s Bytes) (c Int)) (! (=> (= (blen s) 1) (= (indexbyte s c) (ite (= (at s 0) c) 0 (- 1)))) :pattern ((indexbyte s c)))) :named indexbyte_1))
; parts of a concatenation
(assert (! (forall ((a Bytes) (b Bytes) (i Int) (j Int)) (! (=> (and (<= (blen a) i) (<= i j) (<= j (+ (blen a) (blen b)))) (= (bsub (app a b) i j) (bsub b (- i (blen a)) (- j (blen a))))) :pattern ((bsub (app a b) i j)))) :named bsub_app_r))
(assert (! (forall ((a Bytes) (b Bytes) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (blen a))) (= (bsub (app a b) i j) (bsub a i j))) :pattern ((bsub (app a b) i j)))) :named bsub_app_l))
(assert (! (forall ((s Bytes) (n Int)) (! (=> (= n (blen s)) (= (bsub s 0 n) s)) :pattern ((bsub s 0 n)))) :named bsub_all))
; decimal, boolean and floating-point texts
(declare-fun itoa (Int) Bytes)
(declare-fun fmtint (Int Int) Bytes)
(assert (! (forall ((i Int)) (! (= (fmtint i 10) (itoa i)) :pattern ((fmtint i 10)))) :named fmtint_10))
(define-fun isdigit ((c Int)) Bool (and (<= 48 c) (<= c 57)))
(assert (! (forall ((i Int)) (! (and (>= (blen (itoa i)) (ite (< i 0) 2 1)) (= (= (at (itoa i) 0) 45) (< i 0)) (=> (>= i 0) (isdigit (at (itoa i) 0)))) :pattern ((itoa i)))) :named itoa_1))
(assert (! (forall ((i Int) (k Int)) (! (=> (and (<= 0 k) (< k (blen (itoa i)))) (or (isdigit (at (itoa i) k)) (and (= k 0) (= (at (itoa i) 0) 45)))) :pattern ((at (itoa i) k)))) :named itoa_2))
(declare-fun fmtbool (Bool) Bytes)
(assert (! (and (= (fmtbool true) lit!74727565) (= (fmtbool false) lit!66616c7365)) :named fmtbool_1))
(declare-fun parsebool (Bytes) Bool)
(declare-fun parsebool_ok (Bytes) Bool)
(assert (! (forall ((s Bytes)) (! (=> (not (parsebool_ok s)) (not (parsebool s))) :pattern ((parsebool s)))) :named parsebool_0))
(assert (! (forall ((s Bytes)) (! (=> (or (= s (fmtbool true)) (= s (fmtbool false))) (and (parsebool_ok s) (= (parsebool s) (= s (fmtbool true))))) :pattern ((parsebool s)))) :named parsebool_1))
(declare-fun parseint (Bytes Int Int) Int)
(declare-fun parseint_ok (Bytes Int Int) Bool)
(define-fun is64 ((i Int)) Bool (and (<= (- 9223372036854775808) i) (< i 9223372036854775808)))
(assert (! (forall ((s Bytes)) (! (is64 (parseint s 10 64)) :pattern ((parseint s 10 64)))) :named parseint_r))
(assert (! (forall ((i Int)) (! (=> (is64 i) (and (parseint_ok (itoa i) 10 64) (= (parseint (itoa i) 10 64) i))) :pattern ((itoa i)))) :named parseint_1))
(assert (! (forall ((s Bytes)) (! (=> (parseint_ok s 10 64) (and (> (blen s) 0) (or (isdigit (at s 0)) (= (at s 0) 43) (= (at s 0) 45)))) :pattern ((parseint_ok s 10 64)))) :named parseint_2))
(define-fun atoi ((s Bytes)) Int (parseint s 10 64))
(define-fun atoi_ok ((s Bytes)) Bool (parseint_ok s 10 64))
(declare-fun parsefloat (Bytes Int) F64)
(declare-fun parsefloat_ok (Bytes Int) Bool)
(declare-fun fmtfloat (F64 Int Int Int) Bytes)
; shortest decimal text without exponent, format 'f'
(define-fun ftext ((d F64)) Bytes (fmtfloat d 102 (- 1) 64))
(define-fun isfch ((c Int)) Bool (or (isdigit c) (= c 46) (= c 45) (= c 43) (= c 73) (= c 110) (= c 102) (= c 78) (= c 97)))
(assert (! (forall ((d F64)) (! (let ((s (fmtfloat d 102 (- 1) 64))) (and (>= (blen s) 1)
   (or (isdigit (at s 0)) (= (at s 0) 45) (and (not (isnan d)) (= (at s 0) 43)) (and (isnan d) (= (at s 0) 78)))
   (=> (isnan d) (and (= (blen s) 3) (= (at s 0) 78) (= (at s 1) 97) (= (at s 2) 78)))
   (parsefloat_ok s 64)
   (= (isnan (parsefloat s 64)) (isnan d))
   (=> (not (isnan d)) (feq (parsefloat s 64) d))
   (=> (and (not (isnan d)) (parseint_ok s 10 64)) (feq (f_of_int (parseint s 10 64)) d)))) :pattern ((fmtfloat d 102 (- 1) 64)))) :named ftext_1))
(assert (! (forall ((d F64) (k Int)) (! (let ((s (fmtfloat d 102 (- 1) 64))) (=> (and (<= 0 k) (< k (blen s))) (isfch (at s k)))) :pattern ((at (fmtfloat d 102 (- 1) 64) k)))) :named ftext_2))
(assert (! (forall ((s Bytes)) (! (=> (and (= (blen s) 3) (= (at s 0) 78) (= (at s 1) 97) (= (at s 2) 78)) (and (parsefloat_ok s 64) (isnan (parsefloat s 64)))) :pattern ((parsefloat_ok s 64)))) :named parsefloat_nan))
; hexadecimal
(define-fun ishex ((c Int)) Bool (or (isdigit c) (and (<= 97 c) (<= c 102)) (and (<= 65 c) (<= c 70))))
(define-fun hexval ((c Int)) Int (ite (isdigit c) (- c 48) (ite (<= 97 c) (- c 87) (- c 55))))
(declare-fun hexdec (Bytes) Bytes)
(declare-fun hexdec_ok (Bytes) Bool)
(assert (! (forall ((b Bytes) (k Int)) (! (=> (and (<= 0 k) (< k (* 2 (blen b)))) (let ((c (at (hexenc b) k))) (or (isdigit c) (and (<= 97 c) (<= c 102))))) :pattern ((at (hexenc b) k)))) :named hexenc_1))
(assert (! (forall ((b Bytes)) (! (and (hexdec_ok (hexenc b)) (= (hexdec (hexenc b)) b)) :pattern ((hexenc b)))) :named hexdec_1))
(assert (! (forall ((s Bytes)) (! (=> (hexdec_ok s) (and (= (mod (blen s) 2) 0) (= (* 2 (blen (hexdec s))) (blen s)))) :pattern ((hexdec_ok s)))) :named hexdec_2))
(assert (! (forall ((s Bytes)) (! (=> (and (= (blen s) 2) (ishex (at s 0)) (ishex (at s 1))) (and (hexdec_ok s) (= (hexdec s) (unit (+ (* 16 (hexval (at s 0))) (hexval (at s 1))))))) :pattern ((hexdec_ok s)))) :named hexdec_3))
(assert (! (forall ((s Bytes)) (! (=> (= (blen s) 0) (and (hexdec_ok s) (= (blen (hexdec s)) 0))) :pattern ((hexdec_ok s)))) :named hexdec_4))
; base64
(declare-fun b64enc (Int Bytes) Bytes)
(declare-fun b64dec (Int Bytes) Bytes)
(declare-fun b64dec_ok (Int Bytes) Bool)
(assert (! (forall ((e Int) (b Bytes)) (! (and (b64dec_ok e (b64enc e b)) (= (b64dec e (b64enc e b)) b)) :pattern ((b64enc e b)))) :named b64_1))
; ---------------------------------------------------------------- big integers and decimals
(define-fun idint ((n Int)) Int n)
(declare-fun bigbytes (Int) Bytes)
(declare-fun setbytes (Bytes) Int)
(define-fun iabs ((n Int)) Int (ite (< n 0) (- n) n))
(assert (! (forall ((n Int)) (! (and (= (setbytes (bigbytes n)) (iabs n)) (= (= (blen (bigbytes n)) 0) (= n 0))) :pattern ((bigbytes n)))) :named bigbytes_1))
(assert (! (forall ((b Bytes)) (! (and (>= (setbytes b) 0) (=> (= (blen b) 0) (= (setbytes b) 0)) (=> (= (blen b) 1) (= (setbytes b) (at b 0)))) :pattern ((setbytes b)))) :named setbytes_1))
(define-fun bigsign ((n Int)) Int (ite (< n 0) (- 1) (ite (= n 0) 0 1)))
(declare-fun big_lost (Int) Int)
(define-fun big_int64 ((n Int)) Int (ite (is64 n) n (big_lost n)))
(assert (! (forall ((n Int)) (! (is64 (big_lost n)) :pattern ((big_lost n)))) :named big_lost_1))
(define-fun bigcmp ((a Int) (b Int)) Int (ite (< a b) (- 1) (ite (= a b) 0 1)))
(define-fun bigneg ((a Int)) Int (- a))
(define-fun bigadd ((a Int) (b Int)) Int (+ a b))
(define-fun bigsub ((a Int) (b Int)) Int (- a b))
(declare-fun bf_of_int (Int) Bigf)
(declare-fun bf_of_f64 (F64) Bigf)
(declare-fun bf_to_f64 (Bigf) F64)
(declare-fun bf_acc (Bigf) Int)
(declare-fun bf_isinf (Bigf) Bool)
(declare-fun bf_int (Bigf) Int)
(declare-fun f_trunc (F64) Int)
(assert (! (forall ((d F64)) (! (and (= (bf_isinf (bf_of_f64 d)) (isinf d 0)) (= (bf_int (bf_of_f64 d)) (f_trunc d))) :pattern ((bf_of_f64 d)))) :named bf_1))
(define-fun big_f64 ((n Int)) F64 (bf_to_f64 (bf_of_int n)))
(assert (! (forall ((n Int)) (! (and (not (isnan (bf_to_f64 (bf_of_int n)))) (=> (is64 n) (= (bf_to_f64 (bf_of_int n)) (f_of_int n)))) :pattern ((bf_of_int n)))) :named bf_2))
; the number that a decimal stands for
(declare-fun dnum (Dec) Real)
(declare-fun pow10 (Int) Int)
(assert (! (forall ((n Int)) (! (>= (pow10 n) 1) :pattern ((pow10 n)))) :named pow10_1))
(assert (! (forall ((c Int) (e Int)) (! (and (= (dcoef (mkdec c e)) c) (=> (and (<= (- 2147483648) e) (<= e 2147483647)) (= (dexp (mkdec c e)) e))) :pattern ((mkdec c e)))) :named mkdec_1))
(assert (! (forall ((d Dec)) (! (= (mkdec (dcoef d) (dexp d)) d) :pattern ((dcoef d) (dexp d)))) :named mkdec_2))
(assert (! (forall ((d Dec)) (! (and (<= (- 2147483648) (dexp d)) (<= (dexp d) 2147483647)) :pattern ((dexp d)))) :named dexp_r))
(assert (! (forall ((c Int)) (! (= (dnum (mkdec c 0)) (to_real c)) :pattern ((dnum (mkdec c 0))))) :named dnum_1))
(define-fun dec_of_int ((i Int)) Dec (mkdec i 0))
; largest integer that is not above the decimal
(define-fun dfloor ((d Dec)) Int (ite (>= (dexp d) 0) (* (dcoef d) (pow10 (dexp d))) (div (dcoef d) (pow10 (- (dexp d))))))
(define-fun dtrunc ((d Dec)) Int (ite (or (>= (dexp d) 0) (>= (dcoef d) 0)) (dfloor d) (- (div (- (dcoef d)) (pow10 (- (dexp d)))))))
(define-fun dec_to_big ((d Dec)) Int (dtrunc d))
(define-fun dec_floor ((d Dec)) Dec (ite (>= (dexp d) 0) d (mkdec (dfloor d) 0)))
(assert (! (= (pow10 0) 1) :named pow10_0))
(declare-fun dec_int (Dec) Int)
(assert (! (forall ((d Dec)) (! (and (is64 (dec_int d)) (=> (is64 (dtrunc d)) (= (dec_int d) (dtrunc d)))) :pattern ((dec_int d)))) :named dec_int_1))
(declare-fun dec_f64 (Dec) F64)
(declare-fun dec_f64x (Dec) Bool)
(assert (! (forall ((d Dec)) (! (not (isnan (dec_f64 d))) :pattern ((dec_f64 d)))) :named dec_f64_1))
(declare-fun dec_of_f64 (F64) Dec)
(declare-fun dec_add (Dec Dec) Dec)
(declare-fun dec_sub (Dec Dec) Dec)
(assert (! (forall ((a Dec) (b Dec)) (! (= (dnum (dec_add a b)) (+ (dnum a) (dnum b))) :pattern ((dec_add a b)))) :named dec_add_1))
(assert (! (forall ((a Dec) (b Dec)) (! (= (dnum (dec_sub a b)) (- (dnum a) (dnum b))) :pattern ((dec_sub a b)))) :named dec_sub_1))
(define-fun dec_cmp ((a Dec) (b Dec)) Int (ite (< (dnum a) (dnum b)) (- 1) (ite (= (dnum a) (dnum b)) 0 1)))
; ---------------------------------------------------------------- doubles
(assert (! (isnan fnan) :named fnan_1))
(assert (! (forall ((a F64) (b F64)) (! (and (= (feq a b) (feq b a)) (=> (or (isnan a) (isnan b)) (not (feq a b))) (=> (and (= a b) (not (isnan a))) (feq a b))) :pattern ((feq a b)))) :named feq_1))
(assert (! (forall ((i Int)) (! (not (isnan (f_of_int i))) :pattern ((f_of_int i)))) :named f_of_int_1))
(assert (! (forall ((d F64) (k Int)) (! (=> (isnan d) (not (isinf d k))) :pattern ((isinf d k)))) :named isinf_1))
(assert (! (forall ((a F64) (b F64)) (! (= (fabs (fsub a b)) (fabs (fsub b a))) :pattern ((fabs (fsub a b))))) :named fabs_1))
; ---------------------------------------------------------------- texts of values
(declare-fun goquote (Bytes) Bytes)
(declare-fun jsonq (Bytes Bool) Bytes)
; big-endian bytes of a 32-bit number without leading zeros (one byte for zero): what they sum up to, and how they are computed
(declare-fun minbe (Int) Bytes)
(assert (! (forall ((a Int)) (! (=> (and (<= 0 a) (< a 4294967296)) (let ((b (minbe a))) (and
  (= (blen b) (ite (< a 256) 1 (ite (< a 65536) 2 (ite (< a 16777216) 3 4))))
  (= a (ite (< a 256) (at b 0) (ite (< a 65536) (+ (* 256 (at b 0)) (at b 1)) (ite (< a 16777216) (+ (* 65536 (at b 0)) (* 256 (at b 1)) (at b 2)) (+ (* 16777216 (at b 0)) (* 65536 (at b 1)) (* 256 (at b 2)) (at b 3))))))))) :pattern ((minbe a)))) :named minbe_1))
(assert (! (forall ((a Int) (x Bytes) (y Bytes)) (! (=> (and (<= 0 a) (< a 4294967296)) (= (minbe a) (ite (< a 256) (unit (mod a 256)) (ite (< a 65536) (be16 a) (ite (< a 16777216) (app (unit (mod (div a 65536) 256)) (be16 a)) (be32 a)))))) :pattern ((minbe a) (bdiff x y)))) :named minbe_2))
(define-fun exptext ((e Int)) Bytes (ite (< e 0) (app (unit 45) (hexenc (minbe (- e)))) (hexenc (minbe e))))
(define-fun hextext ((n Int)) Bytes (ite (= n 0) (unit 48) (hexenc (bigbytes n))))
(define-fun hexsign ((n Int)) Bytes (ite (< n 0) (app (unit 45) (app (unit 48) (unit 120))) (app (unit 48) (unit 120))))
(define-fun bigtext ((n Int)) Bytes (app (hexsign n) (hextext n)))
(define-fun dectext ((d Dec)) Bytes (ite (= (dexp d) 0) (bigtext (dcoef d)) (app (hexsign (dcoef d)) (app (hextext (dcoef d)) (app (unit 120) (exptext (dexp d)))))))
; conversions of numbers
(define-fun isnum ((v V)) Bool (or ((_ is vlong) v) ((_ is vdbl) v) ((_ is vbig) v) ((_ is vdec) v)))
(define-fun nlong ((v V)) Int (ite ((_ is vlong) v) (v_long v) (ite ((_ is vdbl) v) (ite (isnan (v_dbl v)) 0 (f_to_int (v_dbl v))) (ite ((_ is vbig) v) (big_int64 (v_big v)) (dec_int (v_dec v))))))
(define-fun ndouble ((v V)) F64 (ite ((_ is vlong) v) (f_of_int (v_long v)) (ite ((_ is vdbl) v) (v_dbl v) (ite ((_ is vbig) v) (big_f64 (v_big v)) (dec_f64 (v_dec v))))))
(define-fun nbig ((v V)) Int (ite ((_ is vlong) v) (v_long v) (ite ((_ is vdbl) v) (ite (or (isnan (v_dbl v)) (isinf (v_dbl v) 0)) 0 (f_trunc (v_dbl v))) (ite ((_ is vbig) v) (v_big v) (dfloor (v_dec v))))))
(define-fun ndec ((v V)) Dec (ite ((_ is vlong) v) (mkdec (v_long v) 0) (ite ((_ is vdbl) v) (ite (or (isnan (v_dbl v)) (isinf (v_dbl v) 0)) (mkdec 0 0) (dec_of_f64 (v_dbl v))) (ite ((_ is vbig) v) (mkdec (v_big v) 0) (v_dec v)))))
(define-fun dec_is_sum ((r Dec) (a Dec) (b Dec)) Bool (= (dnum r) (+ (dnum a) (dnum b))))
(define-fun dec_is_diff ((r Dec) (a Dec) (b Dec)) Bool (= (dnum r) (- (dnum a) (dnum b))))
(declare-fun pnum (Bytes) V)
