; ---------------------------------------------------------------- digests, randomness and boxes (C06, C19)
(declare-fun hashavail (Int) Bool)
(declare-fun digest (Int Bytes) Bytes)
; reflection types
(declare-fun dyntype (Iface) Int)
(declare-fun rtype (Int) Int)

; NaCl boxes: message, nonce, public key, private key
(declare-fun boxseal (Bytes Bytes Bytes Bytes) Bytes)
(declare-fun boxok (Bytes Bytes Bytes Bytes) Bool)
(declare-fun boxopen (Bytes Bytes Bytes Bytes) Bytes)
; two key pairs belong together: a public and private key each, crosswise
(declare-fun boxpair (Bytes Bytes Bytes Bytes) Bool)
(assert (! (forall ((m Bytes) (n Bytes) (pk Bytes) (sk Bytes) (pk2 Bytes) (sk2 Bytes)) (! (=> (boxpair pk sk pk2 sk2) (and (boxok (boxseal m n pk sk) n pk2 sk2) (= (boxopen (boxseal m n pk sk) n pk2 sk2) m)))
  :pattern ((boxseal m n pk sk) (boxpair pk sk pk2 sk2)))) :named box_roundtrip))
