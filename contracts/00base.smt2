; ---------------------------------------------------------------- byte strings
(declare-sort Bytes 0)
(declare-fun blen (Bytes) Int)
(declare-fun at (Bytes Int) Int)
(declare-fun app (Bytes Bytes) Bytes)
(declare-fun unit (Int) Bytes)
(declare-fun bsub (Bytes Int Int) Bytes)
(declare-fun mkb ((Array Int Int) Int Int) Bytes)
(declare-fun arrof (Bytes) (Array Int Int))
(declare-fun bdiff (Bytes Bytes) Int)
(declare-fun bext (Bytes Bytes) Bool)
(declare-fun blt (Bytes Bytes) Bool)
(assert (forall ((a Bytes)) (! (>= (blen a) 0) :pattern ((blen a)))))
(assert (forall ((a Bytes) (i Int)) (! (and (<= 0 (at a i)) (< (at a i) 256)) :pattern ((at a i)))))
(assert (forall ((a Bytes) (b Bytes)) (! (= (blen (app a b)) (+ (blen a) (blen b))) :pattern ((app a b)))))
(assert (forall ((a Bytes) (b Bytes) (i Int)) (! (= (at (app a b) i) (ite (< i (blen a)) (at a i) (at b (- i (blen a))))) :pattern ((at (app a b) i)))))
(assert (forall ((a Bytes) (b Bytes) (c Bytes)) (! (= (app (app a b) c) (app a (app b c))) :pattern ((app (app a b) c)))))
(assert (forall ((a Bytes) (b Bytes)) (! (and (=> (= (blen b) 0) (= (app a b) a)) (=> (= (blen a) 0) (= (app a b) b))) :pattern ((app a b)))))
(assert (forall ((b Int)) (! (and (= (blen (unit b)) 1) (=> (and (<= 0 b) (< b 256)) (= (at (unit b) 0) b))) :pattern ((unit b)))))
(assert (forall ((s Bytes) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (blen s))) (= (blen (bsub s i j)) (- j i))) :pattern ((bsub s i j)))))
(assert (forall ((s Bytes) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (blen s)) (<= 0 k) (< k (- j i))) (= (at (bsub s i j) k) (at s (+ i k)))) :pattern ((at (bsub s i j) k)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (blen (mkb a o n)) n)) :pattern ((mkb a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 (select a (+ o i))) (< (select a (+ o i)) 256)) (= (at (mkb a o n) i) (select a (+ o i)))) :pattern ((at (mkb a o n) i)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (and (> n 0) (<= 0 (select a o)) (< (select a o) 256)) (= (at (mkb a o n) 0) (select a o))) :pattern ((mkb a o n)))))
(assert (forall ((s Bytes) (i Int)) (! (=> (and (<= 0 i) (< i (blen s))) (= (select (arrof s) i) (at s i))) :pattern ((select (arrof s) i)))))
(assert (forall ((s Bytes) (n Int)) (! (=> (= n (blen s)) (= (mkb (arrof s) 0 n) s)) :pattern ((mkb (arrof s) 0 n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j n)) (= (bsub (mkb a o n) i j) (mkb a (+ o i) (- j i)))) :pattern ((bsub (mkb a o n) i j)))))
(assert (forall ((s Bytes) (h Int) (k Int) (i Int) (j Int)) (! (=> (and (<= 0 h) (<= h k) (<= k (blen s)) (<= 0 i) (<= i j) (<= j (- k h))) (= (bsub (bsub s h k) i j) (bsub s (+ h i) (+ h j)))) :pattern ((bsub (bsub s h k) i j)))))
(assert (forall ((s Bytes)) (! (= (bsub s 0 (blen s)) s) :pattern ((bsub s 0 (blen s))))))
; equal strings: same length and the same bytes
(assert (forall ((a Bytes) (b Bytes)) (! (=> (bext a b) (or (= a b) (not (= (blen a) (blen b))) (and (<= 0 (bdiff a b)) (< (bdiff a b) (blen a)) (not (= (at a (bdiff a b)) (at b (bdiff a b))))))) :pattern ((bext a b)))))
; strict total order of Go string comparison
(assert (forall ((a Bytes)) (! (not (blt a a)) :pattern ((blt a a)))))
(assert (forall ((a Bytes) (b Bytes) (c Bytes)) (! (=> (and (blt a b) (blt b c)) (blt a c)) :pattern ((blt a b) (blt b c)))))
(assert (forall ((a Bytes) (b Bytes)) (! (and (or (blt a b) (blt b a) (= a b)) (not (and (blt a b) (blt b a)))) :pattern ((blt a b)))))
(assert (forall ((a Bytes) (b Bytes)) (! (=> (= (blen a) 0) (= (blt a b) (> (blen b) 0))) :pattern ((blt a b)))))
; ---------------------------------------------------------------- references of embedded objects
(define-fun drv ((r Int) (k Int)) Int (- (- (* 8 r)) (+ k 1)))
; ---------------------------------------------------------------- 64-bit floats
(declare-sort F64 0)
(declare-fun fnan () F64)
(declare-fun feq (F64 F64) Bool)
(declare-fun flt (F64 F64) Bool)
(declare-fun fle (F64 F64) Bool)
(declare-fun fadd (F64 F64) F64)
(declare-fun fsub (F64 F64) F64)
(declare-fun fmul (F64 F64) F64)
(declare-fun fdiv (F64 F64) F64)
(declare-fun fneg (F64) F64)
(declare-fun fabs (F64) F64)
(declare-fun isnan (F64) Bool)
(declare-fun isinf (F64 Int) Bool)
(declare-fun f_of_int (Int) F64)
(declare-fun f_to_int (F64) Int)
(declare-fun f_to_f32 (F64) F64)
(declare-fun f_of_f32 (F64) F64)
(declare-fun fbits (F64) Int)
(declare-fun f_of_bits (Int) F64)
(declare-fun fbits32 (F64) Int)
(declare-fun f_of_bits32 (Int) F64)
; ---------------------------------------------------------------- decimals: coefficient * 10^exponent
(declare-sort Dec 0)
(declare-fun mkdec (Int Int) Dec)
(declare-fun dcoef (Dec) Int)
(declare-fun dexp (Dec) Int)
(declare-sort Ghost 0)
(declare-sort RV 0)
(declare-sort Bigs 0)
(declare-sort Bigf 0)
; ---------------------------------------------------------------- machine words
(declare-fun idiv (Int Int) Int)
(declare-fun irem (Int Int) Int)
(declare-fun bitand (Int Int) Int)
(declare-fun bitor (Int Int) Int)
(declare-fun bitxor (Int Int) Int)
(declare-fun andnot (Int Int) Int)
(declare-fun shl (Int Int) Int)
(declare-fun shr (Int Int) Int)
(declare-fun runestr (Int) Bytes)
(declare-fun implements (Int Int) Bool)
; ---------------------------------------------------------------- sequences of values (channels)
(declare-datatypes ((VS 0)) (((vs_nil) (vs_cons (vs_hd Iface) (vs_tl VS)))))
(declare-fun vs_snoc (VS Iface) VS)
(declare-fun vs_len (VS) Int)
(assert (forall ((s VS)) (! (and (>= (vs_len s) 0) (=> ((_ is vs_cons) s) (= (vs_len s) (+ 1 (vs_len (vs_tl s)))))) :pattern ((vs_len s)))))
