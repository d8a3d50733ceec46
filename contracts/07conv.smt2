; ---------------------------------------------------------------- conversions between collections and from texts (C12, C08, C09)
(define-fun pstr ((s Bytes)) V (ite (and (hasprefix s lit!6261736536342c) (b64dec_ok ext_base64_RawStdEncoding (bsub s 7 (blen s)))) (vraw (b64dec ext_base64_RawStdEncoding (bsub s 7 (blen s)))) (vstr s)))
; values of a map; entries of a list keyed by decimal index
(declare-fun kvals (KL) VL)
(assert (! (= (kvals kln) vln) :named kvals_n))
(assert (! (forall ((k Bytes) (h V) (t KL)) (! (= (kvals (klc k h t)) (vlc h (kvals t))) :pattern ((kvals (klc k h t))))) :named kvals_c))
(declare-fun vents (VL Int) KL)
(assert (! (forall ((i Int)) (! (= (vents vln i) kln) :pattern ((vents vln i)))) :named vents_n))
(assert (! (forall ((h V) (t VL) (i Int)) (! (= (vents (vlc h t) i) (klc (itoa i) h (vents t (+ i 1)))) :pattern ((vents (vlc h t) i)))) :named vents_c))
(declare-fun ients (IL) KL)
(assert (! (= (ients iln) kln) :named ients_n))
(assert (! (forall ((k Int) (h V) (t IL)) (! (= (ients (ilc k h t)) (klc (itoa k) h (ients t))) :pattern ((ients (ilc k h t))))) :named ients_c))
(define-fun lents ((v V)) KL (ite ((_ is vlist) v) (vents (v_list v) 0) (ients (v_sp v))))
; sequences in arrays that agree everywhere are equal
(declare-fun kvdiff ((Array Int Iface) Int (Array Int Iface) Int Int) Int)
(assert (! (forall ((a (Array Int Iface)) (o Int) (b (Array Int Iface)) (p Int) (n Int)) (! (= (kvdiff a o b p n) (ite (<= n 0) 0 (ite (= (view (select a o)) (view (feval (select b p)))) (+ 1 (kvdiff a (+ o 1) b (+ p 1) (- n 1))) 0))) :pattern ((kvdiff a o b p n)))) :named kvdiff_def!))
(assert (! (forall ((a (Array Int Iface)) (o Int) (b (Array Int Iface)) (p Int) (n Int)) (! (let ((d (kvdiff a o b p n))) (and (>= d 0) (or (= (vseq a o n) (kvals (kseq b p n))) (and (<= 0 d) (< d n) (not (= (view (select a (+ o d))) (view (feval (select b (+ p d)))))))))) :pattern ((kvdiff a o b p n)))) :named kvals_ext!))
(assert (! (forall ((a (Array Int Iface)) (o Int) (b (Array Int Iface)) (p Int) (n Int)) (! (let ((d (kvdiff a o b p n))) (or (= (vseq a o n) (kvals (kseq b p n))) (and (<= 0 d) (< d n) (not (= (view (select a (+ o d))) (view (feval (select b (+ p d))))))))) :pattern ((vseq a o n) (kvals (kseq b p n))))) :named kvals_seq))
(declare-fun vediff ((Array Int Iface) Int (Array Int Iface) Int Int Int) Int)
(assert (! (forall ((a (Array Int Iface)) (o Int) (b (Array Int Iface)) (p Int) (n Int) (i Int)) (! (= (vediff a o b p n i) (ite (<= n 0) 0 (ite (and (= (fekey (select a o)) (itoa i)) (= (view (feval (select a o))) (view (select b p)))) (+ 1 (vediff a (+ o 1) b (+ p 1) (- n 1) (+ i 1))) 0))) :pattern ((vediff a o b p n i)))) :named vediff_def!))
(assert (! (forall ((a (Array Int Iface)) (o Int) (b (Array Int Iface)) (p Int) (n Int) (i Int)) (! (let ((d (vediff a o b p n i))) (or (= (kseq a o n) (vents (vseq b p n) i)) (and (<= 0 d) (< d n) (not (and (= (fekey (select a (+ o d))) (itoa (+ i d))) (= (view (feval (select a (+ o d)))) (view (select b (+ p d))))))))) :pattern ((kseq a o n) (vents (vseq b p n) i)))) :named vents_seq))
(declare-fun iediff ((Array Int Iface) Int (Array Int Iface) Int Int) Int)
(assert (! (forall ((a (Array Int Iface)) (o Int) (b (Array Int Iface)) (p Int) (n Int)) (! (= (iediff a o b p n) (ite (<= n 0) 0 (ite (and (= (fekey (select a o)) (itoa (fikey (select b p)))) (= (view (feval (select a o))) (view (fival (select b p))))) (+ 1 (iediff a (+ o 1) b (+ p 1) (- n 1))) 0))) :pattern ((iediff a o b p n)))) :named iediff_def!))
(assert (! (forall ((a (Array Int Iface)) (o Int) (b (Array Int Iface)) (p Int) (n Int)) (! (let ((d (iediff a o b p n))) (or (= (kseq a o n) (ients (iseq b p n))) (and (<= 0 d) (< d n) (not (and (= (fekey (select a (+ o d))) (itoa (fikey (select b (+ p d))))) (= (view (feval (select a (+ o d)))) (view (fival (select b (+ p d)))))))))) :pattern ((kseq a o n) (ients (iseq b p n))))) :named ients_seq))
; two lists are the same: the form in which the equality of sequences in two arrays is proved
(declare-fun vsame (VL VL) Bool)
(assert (! (forall ((x VL) (y VL)) (! (= (vsame x y) (= x y)) :pattern ((vsame x y)))) :named vsame_def))
(declare-fun vsdiff ((Array Int Iface) Int (Array Int Iface) Int Int) Int)
(assert (! (forall ((a (Array Int Iface)) (o Int) (b (Array Int Iface)) (p Int) (n Int)) (! (= (vsdiff a o b p n) (ite (<= n 0) 0 (ite (= (view (select a o)) (view (select b p))) (+ 1 (vsdiff a (+ o 1) b (+ p 1) (- n 1))) 0))) :pattern ((vsdiff a o b p n)))) :named vsdiff_def!))
(assert (! (forall ((a (Array Int Iface)) (o Int) (b (Array Int Iface)) (p Int) (n Int)) (! (let ((d (vsdiff a o b p n))) (and (>= d 0) (or (= (vseq a o n) (vseq b p n)) (and (<= 0 d) (< d n) (not (= (view (select a (+ o d))) (view (select b (+ p d))))))))) :pattern ((vsdiff a o b p n)))) :named vseq_ext!))
(assert (! (forall ((a (Array Int Iface)) (o Int) (b (Array Int Iface)) (p Int) (n Int)) (! (let ((d (vsdiff a o b p n))) (or (= (vseq a o n) (vseq b p n)) (and (<= 0 d) (< d n) (not (= (view (select a (+ o d))) (view (select b (+ p d)))))))) :pattern ((vsame (vseq a o n) (vseq b p n))))) :named vseq_same))
