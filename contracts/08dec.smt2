; ---------------------------------------------------------------- MessagePack decoding (C01, C03, C04)
; R is what remains of the input
(define-fun fmtof ((c Int)) Int
  (ite (<= c 127) 4 (ite (<= c 143) 10 (ite (<= c 159) 9 (ite (<= c 191) 8
  (ite (<= c 193) 2 (ite (<= c 195) 3 (ite (<= c 198) 7 (ite (<= c 201) 11 (ite (<= c 203) 5
  (ite (<= c 211) 4 (ite (<= c 216) 6 (ite (<= c 219) 8 (ite (<= c 221) 9 (ite (<= c 223) 10 4)))))))))))))))
(define-fun hsize ((c Int)) Int
  (ite (= c 196) 2 (ite (= c 197) 3 (ite (= c 198) 5 (ite (= c 199) 2 (ite (= c 200) 3 (ite (= c 201) 5
  (ite (= c 202) 5 (ite (= c 203) 9
  (ite (= c 204) 2 (ite (= c 205) 3 (ite (= c 206) 5 (ite (= c 207) 9 (ite (= c 208) 2 (ite (= c 209) 3 (ite (= c 210) 5 (ite (= c 211) 9
  (ite (= c 212) 3 (ite (= c 213) 4 (ite (= c 214) 6 (ite (= c 215) 10 (ite (= c 216) 18
  (ite (= c 217) 2 (ite (= c 218) 3 (ite (= c 219) 5 (ite (= c 220) 3 (ite (= c 221) 5 (ite (= c 222) 3 (ite (= c 223) 5 1)))))))))))))))))))))))))))))
(define-fun be2at ((b Bytes) (i Int)) Int (+ (* 256 (at b i)) (at b (+ i 1))))
(define-fun be4at ((b Bytes) (i Int)) Int (+ (* 16777216 (at b i)) (* 65536 (at b (+ i 1))) (* 256 (at b (+ i 2))) (at b (+ i 3))))
(define-fun be8at ((b Bytes) (i Int)) Int (+ (* 4294967296 (be4at b i)) (be4at b (+ i 4))))
(define-fun sgn ((x Int) (m Int)) Int (ite (>= (* 2 x) m) (- x m) x))
(declare-fun plong (Bytes) Int)
(assert (! (forall ((b Bytes)) (! (= (plong b) (let ((c (at b 0)))
  (ite (= c 204) (at b 1) (ite (= c 205) (be2at b 1) (ite (= c 206) (be4at b 1) (ite (= c 207) (sgn (be8at b 1) 18446744073709551616)
  (ite (= c 208) (sgn (at b 1) 256) (ite (= c 209) (sgn (be2at b 1) 65536) (ite (= c 210) (sgn (be4at b 1) 4294967296) (ite (= c 211) (sgn (be8at b 1) 18446744073709551616)
  (ite (<= c 127) c (- c 256)))))))))))) :pattern ((plong b)))) :named plong_def))
(declare-fun pdouble (Bytes) F64)
(assert (! (forall ((b Bytes)) (! (= (pdouble b) (ite (= (at b 0) 202) (f_of_f32 (f_of_bits32 (be4at b 1))) (f_of_bits (be8at b 1)))) :pattern ((pdouble b)))) :named pdouble_def))
; announced length or count
(declare-fun plen (Bytes) Int)
(assert (! (forall ((b Bytes)) (! (= (plen b) (let ((c (at b 0)))
  (ite (<= c 143) (- c 128) (ite (<= c 159) (- c 144) (ite (<= c 191) (- c 160)
  (ite (or (= c 196) (= c 199) (= c 217)) (at b 1)
  (ite (or (= c 197) (= c 200) (= c 218) (= c 220) (= c 222)) (be2at b 1)
  (ite (or (= c 198) (= c 201) (= c 219) (= c 221) (= c 223)) (be4at b 1)
  (ite (= c 212) 1 (ite (= c 213) 2 (ite (= c 214) 4 (ite (= c 215) 8 (ite (= c 216) 16 0))))))))))))) :pattern ((plen b)))) :named plen_def))
; prefixes of one array agree
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (m Int)) (! (=> (<= n m) (and (=> (< 0 n) (= (at (mkb a o n) 0) (at (mkb a o m) 0))) (=> (< 1 n) (= (at (mkb a o n) 1) (at (mkb a o m) 1))) (=> (< 2 n) (= (at (mkb a o n) 2) (at (mkb a o m) 2))) (=> (< 3 n) (= (at (mkb a o n) 3) (at (mkb a o m) 3))) (=> (< 4 n) (= (at (mkb a o n) 4) (at (mkb a o m) 4))))) :pattern ((plen (mkb a o n)) (plen (mkb a o m))))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (m Int)) (! (=> (<= n m) (and (=> (< 0 n) (= (at (mkb a o n) 0) (at (mkb a o m) 0))) (=> (< 1 n) (= (at (mkb a o n) 1) (at (mkb a o m) 1))) (=> (< 2 n) (= (at (mkb a o n) 2) (at (mkb a o m) 2))) (=> (< 3 n) (= (at (mkb a o n) 3) (at (mkb a o m) 3))) (=> (< 4 n) (= (at (mkb a o n) 4) (at (mkb a o m) 4))) (=> (< 5 n) (= (at (mkb a o n) 5) (at (mkb a o m) 5))) (=> (< 6 n) (= (at (mkb a o n) 6) (at (mkb a o m) 6))) (=> (< 7 n) (= (at (mkb a o n) 7) (at (mkb a o m) 7))) (=> (< 8 n) (= (at (mkb a o n) 8) (at (mkb a o m) 8))))) :pattern ((plong (mkb a o n)) (plong (mkb a o m))))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (m Int)) (! (=> (<= n m) (and (=> (< 0 n) (= (at (mkb a o n) 0) (at (mkb a o m) 0))) (=> (< 1 n) (= (at (mkb a o n) 1) (at (mkb a o m) 1))) (=> (< 2 n) (= (at (mkb a o n) 2) (at (mkb a o m) 2))) (=> (< 3 n) (= (at (mkb a o n) 3) (at (mkb a o m) 3))) (=> (< 4 n) (= (at (mkb a o n) 4) (at (mkb a o m) 4))) (=> (< 5 n) (= (at (mkb a o n) 5) (at (mkb a o m) 5))) (=> (< 6 n) (= (at (mkb a o n) 6) (at (mkb a o m) 6))) (=> (< 7 n) (= (at (mkb a o n) 7) (at (mkb a o m) 7))) (=> (< 8 n) (= (at (mkb a o n) 8) (at (mkb a o m) 8))))) :pattern ((pdouble (mkb a o n)) (pdouble (mkb a o m))))))
(declare-fun gobok (Bytes) Bool)
(declare-fun gobdec (Bytes) Int)
(declare-fun decok (Bytes) Bool)
(declare-fun decdec (Bytes) Dec)
(define-fun drop ((b Bytes) (n Int)) Bytes (bsub b n (blen b)))
; tag and data of an extension
(define-fun extok ((b Bytes)) Bool (ite (= (at b 0) 1) (gobok (drop b 1)) (ite (= (at b 0) 2) (decok (drop b 1)) true)))
(define-fun extval ((b Bytes)) V (ite (= (at b 0) 1) (vbig (gobdec (drop b 1))) (ite (= (at b 0) 2) (vdec (decdec (drop b 1))) (vext b))))
; the definitions are unfolded where dunf is mentioned
(declare-fun dunf (Bytes) Bool)
(assert (forall ((r Bytes)) (! (dunf r) :pattern ((dunf r)))))
(declare-fun dok (Bytes) Bool)
(declare-fun dval (Bytes) V)
(declare-fun drest (Bytes) Bytes)
(declare-fun dskip (Bytes Int) Bytes)
(declare-fun dlok (Bytes Int) Bool)
(declare-fun dlbad (Bytes Int) Int)
; ---------------------------------------------------------------- the values, keys, payloads at places of the input
(declare-fun darr (Bytes Int) V)
(declare-fun dpay (Bytes Int) V)
(declare-fun dikey (Bytes Int) Int)
(declare-fun ktx (Bytes Int) Bytes)
(declare-fun vgen (Bytes Int Int) VL)
(assert (forall ((r Bytes) (i Int) (n Int)) (! (=> (<= n 0) (= (vgen r i n) vln)) :pattern ((vgen r i n)))))
(assert (forall ((r Bytes) (i Int) (n Int)) (! (=> (> n 0) (= (vgen r i n) (vlc (darr r i) (vgen r (+ i 1) (- n 1))))) :pattern ((vgen r i n) (darr r i)))))
(declare-fun vgdiff ((Array Int Iface) Int Bytes Int Int) Int)
(assert (! (forall ((a (Array Int Iface)) (o Int) (r Bytes) (i Int) (n Int)) (! (= (vgdiff a o r i n) (ite (<= n 0) 0 (ite (= (view (select a o)) (darr r i)) (+ 1 (vgdiff a (+ o 1) r (+ i 1) (- n 1))) 0))) :pattern ((vgdiff a o r i n)))) :named vgdiff_def!))
(assert (! (forall ((a (Array Int Iface)) (o Int) (r Bytes) (i Int) (n Int)) (! (let ((d (vgdiff a o r i n))) (or (= (vseq a o n) (vgen r i n)) (and (<= 0 d) (< d n) (not (= (view (select a (+ o d))) (darr r (+ i d))))))) :pattern ((vseq a o n) (vgen r i n)))) :named vgen_seq))
(declare-fun kgen (Bytes Int Int) KL)
(assert (forall ((r Bytes) (i Int) (n Int)) (! (=> (<= n 0) (= (kgen r i n) kln)) :pattern ((kgen r i n)))))
(assert (forall ((r Bytes) (i Int) (n Int)) (! (=> (> n 0) (= (kgen r i n) (klc (ktx r i) (dpay r i) (kgen r (+ i 1) (- n 1))))) :pattern ((kgen r i n) (dpay r i)))))
(declare-fun kgdiff ((Array Int Iface) Int Bytes Int Int) Int)
(assert (! (forall ((a (Array Int Iface)) (o Int) (r Bytes) (i Int) (n Int)) (! (= (kgdiff a o r i n) (ite (<= n 0) 0 (ite (and (= (fekey (select a o)) (ktx r i)) (= (view (feval (select a o))) (dpay r i))) (+ 1 (kgdiff a (+ o 1) r (+ i 1) (- n 1))) 0))) :pattern ((kgdiff a o r i n)))) :named kgdiff_def!))
(assert (! (forall ((a (Array Int Iface)) (o Int) (r Bytes) (i Int) (n Int)) (! (let ((d (kgdiff a o r i n))) (or (= (kseq a o n) (kgen r i n)) (and (<= 0 d) (< d n) (not (and (= (fekey (select a (+ o d))) (ktx r (+ i d))) (= (view (feval (select a (+ o d)))) (dpay r (+ i d)))))))) :pattern ((kseq a o n) (kgen r i n)))) :named kgen_seq))
(declare-fun igen (Bytes Int Int) IL)
(assert (forall ((r Bytes) (i Int) (n Int)) (! (=> (<= n 0) (= (igen r i n) iln)) :pattern ((igen r i n)))))
(assert (forall ((r Bytes) (i Int) (n Int)) (! (=> (> n 0) (= (igen r i n) (ilc (dikey r i) (dpay r i) (igen r (+ i 1) (- n 1))))) :pattern ((igen r i n) (dpay r i)))))
(declare-fun igdiff ((Array Int Iface) Int Bytes Int Int) Int)
(assert (! (forall ((a (Array Int Iface)) (o Int) (r Bytes) (i Int) (n Int)) (! (= (igdiff a o r i n) (ite (<= n 0) 0 (ite (and (= (fikey (select a o)) (dikey r i)) (= (view (fival (select a o))) (dpay r i))) (+ 1 (igdiff a (+ o 1) r (+ i 1) (- n 1))) 0))) :pattern ((igdiff a o r i n)))) :named igdiff_def!))
(assert (! (forall ((a (Array Int Iface)) (o Int) (r Bytes) (i Int) (n Int)) (! (let ((d (igdiff a o r i n))) (or (= (iseq a o n) (igen r i n)) (and (<= 0 d) (< d n) (not (and (= (fikey (select a (+ o d))) (dikey r (+ i d))) (= (view (fival (select a (+ o d)))) (dpay r (+ i d)))))))) :pattern ((iseq a o n) (igen r i n)))) :named igen_seq))
(define-fun dvl ((r Bytes) (n Int)) VL (vgen r 0 n))
(define-fun dil ((r Bytes) (n Int)) IL (igen r 0 n))
(define-fun dkl ((r Bytes) (n Int)) KL (kgen r 0 n))
(declare-fun dkey (Bytes Int) V)
(declare-fun np (Bytes Int) Bool)
(declare-fun asci (Bytes Int) Bool)
(declare-fun asck (Bytes Int) Bool)
(define-fun mkmap ((r Bytes) (n Int)) V (ite (= n 0) (vmap kln)
  (ite (np r n) (vsp (ite (asci r n) (dil r n) (isort (dil r n)))) (vmap (ite (asck r n) (dkl r n) (ksort (dkl r n)))))))
(define-fun hd ((r Bytes)) Bytes (bsub r 0 (hsize (at r 0))))
(define-fun hrest ((r Bytes)) Bytes (drop r (hsize (at r 0))))
(assert (! (forall ((r Bytes)) (! (let ((h (hsize (at r 0))) (f (fmtof (at r 0))) (n (plen r)))
  (= (dok r) (and (>= (blen r) 1) (>= (blen r) h)
    (=> (= f 6) (extok (bsub r 1 h)))
    (=> (or (= f 7) (= f 8)) (>= (blen r) (+ h n)))
    (=> (= f 11) (and (>= (blen r) (+ h n 1)) (extok (bsub r h (+ h n 1)))))
    (=> (= f 9) (dlok (bsub r h (blen r)) n))
    (=> (= f 10) (dlok (bsub r h (blen r)) (* 2 n)))))) :pattern ((dok r) (dunf r)))) :named dok_def))
(assert (! (forall ((r Bytes)) (! (let ((h (hsize (at r 0))) (f (fmtof (at r 0))) (n (plen r)))
  (= (drest r) (ite (or (= f 7) (= f 8)) (bsub r (+ h n) (blen r)) (ite (= f 11) (bsub r (+ h n 1) (blen r))
    (ite (= f 9) (dskip (bsub r h (blen r)) n) (ite (= f 10) (dskip (bsub r h (blen r)) (* 2 n)) (bsub r h (blen r)))))))) :pattern ((drest r) (dunf r)))) :named drest_def))
(assert (! (forall ((r Bytes)) (! (let ((h (hsize (at r 0))) (f (fmtof (at r 0))) (n (plen r)))
  (= (dval r) (ite (= f 2) vnull (ite (= f 3) (vbool (= (at r 0) 195)) (ite (= f 4) (vlong (plong r)) (ite (= f 5) (vdbl (pdouble r))
    (ite (= f 6) (extval (bsub r 1 h)) (ite (= f 7) (vraw (bsub r h (+ h n))) (ite (= f 8) (vstr (bsub r h (+ h n)))
    (ite (= f 11) (extval (bsub r h (+ h n 1))) (ite (= f 9) (vlist (dvl (bsub r h (blen r)) n)) (mkmap (bsub r h (blen r)) n))))))))))))  :pattern ((dval r) (dunf r)))) :named dval_def))
(assert (! (forall ((r Bytes)) (! (= (dskip r 0) r) :pattern ((dskip r 0)))) :named dskip_0))
(assert (! (forall ((r Bytes) (j Int)) (! (=> (>= j 0) (= (dskip r (+ j 1)) (drest (dskip r j)))) :pattern ((drest (dskip r j))))) :named dskip_s))
; all of the first n values are complete
(assert (! (forall ((r Bytes) (n Int)) (! (or (dlok r n) (and (<= 0 (dlbad r n)) (< (dlbad r n) n) (not (dok (dskip r (dlbad r n)))))) :pattern ((dlok r n)))) :named dlok_1))
(assert (! (forall ((r Bytes) (n Int) (j Int)) (! (=> (and (dlok r n) (<= 0 j) (< j n)) (dok (dskip r j))) :pattern ((dlok r n) (dok (dskip r j))))) :named dlok_2))

(assert (! (forall ((r Bytes) (j Int)) (! (= (darr r j) (dval (dskip r j))) :pattern ((darr r j)))) :named darr_def))
; keys and values of a map: the values at even and at odd places
(assert (! (forall ((r Bytes) (j Int)) (! (= (dkey r j) (dval (dskip r (* 2 j)))) :pattern ((dkey r j)))) :named dkey_def))
(assert (! (forall ((r Bytes) (j Int)) (! (= (dpay r j) (dval (dskip r (+ (* 2 j) 1)))) :pattern ((dpay r j)))) :named dpay_def))
(assert (! (forall ((r Bytes) (j Int)) (! (= (dikey r j) (nlong (dkey r j))) :pattern ((dikey r j)))) :named dikey_def))
; the first n keys are all numbers
(assert (! (forall ((r Bytes) (n Int)) (! (and (=> (<= n 0) (np r n)) (=> (= n 1) (= (np r n) (isnum (dkey r 0))))) :pattern ((np r n)))) :named np_0))
(assert (! (forall ((r Bytes) (m Int) (n Int)) (! (and (=> (and (= m (+ n 1)) (>= n 0)) (= (np r m) (and (np r n) (isnum (dkey r n))))) (=> (and (<= n m) (np r m)) (np r n))) :pattern ((np r m) (np r n)))) :named np_s))
; text of the j-th key: numbers count as indices up to the first key that is not a number
(assert (! (forall ((r Bytes) (j Int)) (! (= (ktx r j) (ite (np r (+ j 1)) (itoa (dikey r j)) (text (dkey r j)))) :pattern ((ktx r j)))) :named ktx_def))
; indices, keys in order as they come
(assert (! (forall ((r Bytes) (n Int)) (! (=> (<= n 1) (asci r n)) :pattern ((asci r n)))) :named asci_0))
(assert (! (forall ((r Bytes) (m Int) (n Int)) (! (=> (and (= m (+ n 1)) (>= n 0)) (= (asci r m) (and (asci r n) (or (= n 0) (>= (dikey r n) (dikey r (- n 1))))))) :pattern ((asci r m) (asci r n)))) :named asci_s))
(assert (! (forall ((r Bytes) (n Int)) (! (and (=> (<= n 0) (asck r n)) (=> (= n 1) (= (asck r n) (not (np r 1))))) :pattern ((asck r n)))) :named asck_0))
(assert (! (forall ((r Bytes) (m Int) (n Int)) (! (=> (and (= m (+ n 1)) (>= n 0)) (= (asck r m) (ite (= n 0) (not (np r 1)) (and (asck r n) (not (blt (ktx r n) (ktx r (- n 1)))))))) :pattern ((asck r m) (asck r n)))) :named asck_s))
(assert (! (forall ((r Bytes) (n Int)) (! (=> (and (asck r n) (>= n 1)) (not (np r 1))) :pattern ((asck r n)))) :named asck_np))
