@@ fn ::make_hash(hash_builder, val)
props C01 P01 G01
ret res
ensures
  [C01 P01 G01] res == hv(hash_builder, val.cls()),

@@ fn ::make_hasher(hash_builder)
props C01 P01 G01 X05
ret res
ensures
  [C01 P01 G01 X05] forall|x: &T| res.requires((x,)),
  forall|x: &T, h: u64| res.ensures((x,), h) ==> h == hv(hash_builder, x.cls()),
closure 0
  -> (h: u64) ensures h == hv(hash_builder, val.cls())
