// Equality (C13)

axiom[C13] vlat_seq n (Iface (select a o))
axiom[C13] ilb_seq n (Iface (select a o))
axiom[C13] ilget_seq n (Iface (select a o)) (Int (ilb (iseq a o n) k))
axiom[C13] ilast_seq n (Iface (select a o)) (Iface (select a (+ o 1)))
axiom[C13] veqk_len (klen a)
axiom[C13] veqi_len (ilen a)
axiom[C13] vlat_sz (vlen l)
axiom[C13] ilget_sz (ilsz s)
axiom[C13] veqd_elim (vlen l) (V (vlat l i)) (Bool (veqat (vl_t l) (+ n 1) o (- i 1)))
axiom[C13] veqd_intro (vlen l) (Int (vdiff l n o)) (Int (vdiff (vl_t l) (+ n 1) o)) (Bool (veqd l n o)) (Bool (veqd (vl_t l) (+ n 1) o))
axiom[C13] veq_sym (+ (vsz a) (vsz b)) (Bool (veq (vmap (kl_t (v_map a))) (vmap (kl_t (v_map b))))) (Bool (veq (vmap (kl_t (v_map b))) (vmap (kl_t (v_map a))))) (Bool (eqlem (vmap (kl_t (v_map a))) (vmap (kl_t (v_map b))))) (Bool (eqlem (kl_v (v_map a)) (kl_v (v_map b))))
  (Bool (veq (vsp (il_t (v_sp a))) (vsp (il_t (v_sp b))))) (Bool (veq (vsp (il_t (v_sp b))) (vsp (il_t (v_sp a))))) (Bool (eqlem (vsp (il_t (v_sp a))) (vsp (il_t (v_sp b))))) (Bool (eqlem (il_v (v_sp a)) (il_v (v_sp b))))
  (Bool (veqat (v_list a) 0 b (vdiff (v_list b) 0 a))) (Bool (eqlem (vlat (v_list a) (vdiff (v_list b) 0 a)) (vlat (v_list b) (vdiff (v_list b) 0 a)))) (Int (vsz (vlat (v_list a) (vdiff (v_list b) 0 a)))) (Int (vsz (vlat (v_list b) (vdiff (v_list b) 0 a))))
  (Bool (veqat (v_list b) 0 a (vdiff (v_list a) 0 b))) (Bool (eqlem (vlat (v_list b) (vdiff (v_list a) 0 b)) (vlat (v_list a) (vdiff (v_list a) 0 b)))) (Int (vsz (vlat (v_list a) (vdiff (v_list a) 0 b)))) (Int (vsz (vlat (v_list b) (vdiff (v_list a) 0 b))))
axiom[C13] nonan_at (vlen l)
axiom[C13] veq_refl (vsz a) (Bool (veq (vmap (kl_t (v_map a))) (vmap (kl_t (v_map a))))) (Bool (eqlem (vmap (kl_t (v_map a))) (vmap (kl_t (v_map a))))) (Bool (nonan (vmap (kl_t (v_map a))))) (Bool (eqlem (kl_v (v_map a)) (kl_v (v_map a))))
  (Bool (veq (vsp (il_t (v_sp a))) (vsp (il_t (v_sp a))))) (Bool (eqlem (vsp (il_t (v_sp a))) (vsp (il_t (v_sp a))))) (Bool (nonan (vsp (il_t (v_sp a))))) (Bool (eqlem (il_v (v_sp a)) (il_v (v_sp a))))
  (Bool (eqlem (vlat (v_list a) (vdiff (v_list a) 0 a)) (vlat (v_list a) (vdiff (v_list a) 0 a)))) (Int (vsz (vlat (v_list a) (vdiff (v_list a) 0 a)))) (Bool (nonan (vlat (v_list a) (vdiff (v_list a) 0 a))))
axiom[C13] neq_exact 0
axiom[C13] neq_inf 0

// the kinds of values
iface Value.Kind(this) (r)
  requires this != nil
  ensures r == (if dyn(this, nullValue) then NULL else if dyn(this, boolValue) then BOOL else if dyn(this, longNumber) || dyn(this, doubleNumber) || dyn(this, bigIntNumber) || dyn(this, decimalNumber) then NUMBER else if dyn(this, uft8String) || dyn(this, rawString) then STRING else if dyn(this, immutableListValue) || dyn(this, solidListValue) || dyn(this, sparseListValue) then LIST else if dyn(this, immutableMapValue) || dyn(this, sortedMapValue) then MAP else UNKNOWN)
  ensures [C01,C04] r == NUMBER <==> isnum(view(this))

iface Bool.Boolean(this) (r)
  requires this != nil
  ensures [C13,C12] r == v_bool(view(this))

iface String.Utf8(this) (r)
  requires this != nil
  ensures [C13] r == strof(view(this))

iface String.Raw(this) (r)
  requires this != nil
  ensures [C13] bytes(r) == strof(view(this))

iface Extension.Native(this) (r)
  requires this != nil
  ensures [C13] bytes(r) == v_ext(view(this))

iface List.Len(this) (r)
  option wraps
  requires this != nil
  ensures [C13] r == llen(view(this))

iface List.GetAt(this, i) (r)
  requires this != nil
  ensures [C13,C12] view(r) == lat(view(this), i)

iface List.Items(this) (r)
  requires this != nil
  ensures [C13] forall k int :: 0 <= k && k < len(r) ==> r[k] != nil
  loopinv [C13] ?s []ListItem: forall k int :: 0 <= k && k < len(s) ==> s[k] != nil
  ensures [C13] is_vsp(view(this)) ==> iseq(contents(r), off(r), len(r)) == v_sp(view(this))

iface Map.Len(this) (r)
  requires this != nil
  ensures [C13] r == klen(v_map(view(this)))

iface Map.Entries(this) (r)
  requires this != nil
  ensures [C13] forall k int :: 0 <= k && k < len(r) ==> r[k] != nil
  ensures [C13] kseq(contents(r), off(r), len(r)) == v_map(view(this))

iface MapEntry.Equal(this, e) (r)
  requires this != nil && e != nil
  requires PrecisionLevel == eqprec()
  decreases [C13] 4 * (vsz(view(feval(this))) + vsz(view(feval(e)))) + 3
  ensures [C13] r == (fekey(this) == fekey(e) && veq(view(feval(this)), view(feval(e))))

iface ListItem.Equal(this, e) (r)
  requires this != nil && e != nil
  requires PrecisionLevel == eqprec()
  decreases [C13] 4 * (vsz(view(fival(this))) + vsz(view(fival(e)))) + 3
  ensures [C13] r == (fikey(this) == fikey(e) && veq(view(fival(this)), view(fival(e))))

func Equal(left, right) (r)
  requires PrecisionLevel == eqprec()
  decreases [C13] 4 * (vsz(view(left)) + vsz(view(right))) + 2
  ensures [C13] r == veq(view(left), view(right))

iface Value.Equal(this, val) (r)
  requires this != nil
  requires PrecisionLevel == eqprec()
  decreases [C13] 4 * (vsz(view(this)) + vsz(view(val))) + (if is_vsp(view(this)) then 1 else 0)
  ensures [C13] r == veq(view(this), view(val))
  loopinv [C13] ?s []Value: veqd(vseq(sel(FHV(), arr(s)), off(s), len(s)), 0, view(val)) == veqd(vseq(sel(FHV(), arr(s)), off(s) + #it, len(s) - #it), #it, view(val))
  loopinv [C13] ?s []Value: vlsz(vseq(sel(FHV(), arr(s)), off(s) + #it, len(s) - #it)) <= vlsz(vseq(sel(FHV(), arr(s)), off(s), len(s)))
  loopinv [C13] ?s []MapEntry, ?t []MapEntry: veqk(kseq(contents(s), off(s), len(s)), kseq(contents(t), off(t), len(t))) == veqk(kseq(contents(s), off(s) + #it, len(s) - #it), kseq(contents(t), off(t) + #it, len(t) - #it))
  loopinv [C13] ?s []MapEntry: klsz(kseq(contents(s), off(s) + #it, len(s) - #it)) <= klsz(kseq(contents(s), off(s), len(s)))
  loopinv [C13] ?s []ListItem, ?t []ListItem: veqi(iseq(contents(s), off(s), len(s)), iseq(contents(t), off(t), len(t))) == veqi(iseq(contents(s), off(s) + #it, len(s) - #it), iseq(contents(t), off(t) + #it, len(t) - #it))
  loopinv [C13] ?s []ListItem: ilsz(iseq(contents(s), off(s) + #it, len(s) - #it)) <= ilsz(iseq(contents(s), off(s), len(s)))
