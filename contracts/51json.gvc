// Texts of values: JSON (C14), the text form (C12), both functions of the content (C06)

axiom[C14] plain_a 0
axiom[C14] plain_h 0
axiom[C14] plain_b 0
axiom[C14] plain_ht 0
axiom[C14] plain_i 0
axiom[C14] plain_hs 0
axiom[C14] plain_et 0
axiom[C14] plain_bt 0
axiom[C14] plain_dt 0
axiom[C14] plain_rt 0
axiom[C14] plain_xt 0
axiom[C14] json_null 0
axiom[C14] json_bool 1
axiom[C14] json_long 0
axiom[C14] json_dbl 0
axiom[C14] json_big 1 (Bool (plain (bigtext n)))
axiom[C14] json_dec 1 (Bool (plain (dectext d)))
axiom[C14] json_str 0
axiom[C14] json_raw 1 (Bool (plain (rawtext b)))
axiom[C14] json_ext 1 (Bool (plain (exttext b)))
axiom[C14] json_all (vsz a) (Cases a V) (Bool (jsonlem (vlist (vl_t (v_list a))))) (Bool (jsonlem (vl_h (v_list a)))) (Bool (jsonlem (vmap (kl_t (v_map a))))) (Bool (jsonlem (kl_v (v_map a)))) (Bool (jsonlem (vsp (il_t (v_sp a))))) (Bool (jsonlem (il_v (v_sp a))))
  (Bool (jgram emptyb (jtext (vl_h (v_list a))) (jls (vl_t (v_list a)) false)))
  (Bool (jgram (jsonq (kl_k (v_map a)) false) (jtext (kl_v (v_map a))) (jks (kl_t (v_map a)) false)))
  (Bool (jgram (quoted (itoa (il_k (v_sp a)))) (jtext (il_v (v_sp a))) (jis (il_t (v_sp a)) false)))
  (Bool (plain (itoa (il_k (v_sp a)))))

iface Value.PrintJSON(this, out)
  requires this != nil && out != nil
  modifies $wout(out)
  ensures [C14,C12,C06] $wout(out) == old($wout(out)) ++ jtext(view(this))
  loopinv [C14,C12,C06] ?s []Value: $wout(out) ++ jls(vseq(sel(FHV(), arr(s)), off(s) + #it, len(s) - #it), #it == 0) == pre($wout(out)) ++ jls(vseq(sel(FHV(), arr(s)), off(s), len(s)), true)
  loopinv [C14,C12,C06] ?s []MapEntry: $wout(out) ++ jks(kseq(sel(FHE(), arr(s)), off(s) + #it, len(s) - #it), #it == 0) == pre($wout(out)) ++ jks(kseq(sel(FHE(), arr(s)), off(s), len(s)), true)
  loopinv [C14,C12,C06] ?s []ListItem: $wout(out) ++ jis(iseq(sel(FHI(), arr(s)), off(s) + #it, len(s) - #it), #it == 0) == pre($wout(out)) ++ jis(iseq(sel(FHI(), arr(s)), off(s), len(s)), true)

iface Value.MarshalJSON(this) (r, err)
  requires this != nil
  ensures [C14,C06] err == nil && bytes(r) == jtext(view(this))
  ensures [C11] fresh(r)

iface Value.String(this) (r)
  requires this != nil
  ensures [C14,C12,C06,C01,C04] r == text(view(this))

func Jsonify(val) (r)
  ensures [C14,C06] r == jtext(view(val))
