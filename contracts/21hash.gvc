// Hashing: the packed bytes and their digest (C19), a function of the content (C06)

func Hash(val, hash) (d, h, err)
  requires hashavail(hash)
  ensures [C06,C19] err == nil && bytes(d) == enc(view(val))
  ensures [C06,C19] bytes(h) == digest(hash, enc(view(val)))
