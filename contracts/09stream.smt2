; ---------------------------------------------------------------- streams of values (C18)
(declare-fun vl_snoc (VL V) VL)
(assert (forall ((x V)) (! (= (vl_snoc vln x) (vlc x vln)) :pattern ((vl_snoc vln x)))))
(assert (forall ((h V) (t VL) (x V)) (! (= (vl_snoc (vlc h t) x) (vlc h (vl_snoc t x))) :pattern ((vl_snoc (vlc h t) x)))))
; what was sent
(declare-fun vsv (VS) VL)
(assert (forall ((s VS) (x Iface)) (! (= (vsv (vs_snoc s x)) (vl_snoc (vsv s) (view x))) :pattern ((vsv (vs_snoc s x))))))
; all complete values at the start of R, appended to a; what is left after them
(declare-fun dstr (VL Bytes) VL)
(declare-fun dfin (Bytes) Bytes)
(assert (! (forall ((a VL) (r Bytes)) (! (= (dstr a r) (ite (dok r) (dstr (vl_snoc a (dval r)) (drest r)) a)) :pattern ((dstr a r) (dok r)))) :named dstr_def))
(assert (! (forall ((r Bytes)) (! (= (dfin r) (ite (dok r) (dfin (drest r)) r)) :pattern ((dfin r) (dok r)))) :named dfin_def))
