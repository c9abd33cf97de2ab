// Page and name trees. The lemmas sp_visit, sp_depths and sp_deptha are assumed:
// there are finitely many objects, and every object is a finite tree.
spec sp_unvisited(seen; r) uninterpreted global
  reads Parser.Xref
  ensures 0 <= r

spec sp_visit(p, seen, n; r) uninterpreted global
  reads Parser.Xref
  ensures sp_unvisited(MPUT(seen, n, nil)) <= sp_unvisited(seen)
  ensures IMP(HAS(p.Xref, n) && !HAS(seen, n), sp_unvisited(MPUT(seen, n, nil)) < sp_unvisited(seen))

spec sp_deref_known(r; k)
  reveal sp_deref, sp_value
  hint sp_chase(r.parser, r.Number, map[int]interface{}{})
  ensures k

spec sp_pages_seen(d, seen; r)
  decreases sp_unvisited(seen), 1, 0
  ensures sp_unvisited(r) <= sp_unvisited(seen)

spec sp_pagekids_seen(a, i, seen; r)
  decreases sp_unvisited(seen), 0, len(a) - i
  hint sp_visit(sp_refof(a, i).parser, seen, sp_refof(a, i).Number)
  hint sp_deref_known(sp_refof(a, i))
  ensures sp_unvisited(r) <= sp_unvisited(seen)

spec sp_pages(d, seen; r)
  decreases sp_unvisited(seen), 1, 0

spec sp_pagekids(a, i, seen; r)
  decreases sp_unvisited(seen), 0, len(a) - i
  hint sp_visit(sp_refof(a, i).parser, seen, sp_refof(a, i).Number)
  hint sp_deref_known(sp_refof(a, i))

func Dictionary.ResolveKids(d, resolved_kids; r)
  props C19 C23
  mutates resolved_kids
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  decreases sp_unread(), 13, sp_unvisited(resolved_kids)
  ensures [C19 C23] list: EQ(r, sp_pages(d, OLD(resolved_kids)))
  ensures [C19 C23] seen: EQ(resolved_kids, sp_pages_seen(d, OLD(resolved_kids)))
  loop 1
    invariant EQ(CAT(kids_list, sp_pagekids(kids, IDX, resolved_kids)), sp_pages(d, OLD(resolved_kids)))
    invariant EQ(sp_pagekids_seen(kids, IDX, resolved_kids), sp_pages_seen(d, OLD(resolved_kids)))
    invariant sp_unvisited(resolved_kids) <= sp_unvisited(OLD(resolved_kids))
    use sp_visit(sp_refof(kids, IDX).parser, resolved_kids, sp_refof(kids, IDX).Number)
    use sp_deref_known(sp_refof(kids, IDX))

spec sp_pagetree(d, k; r) sealed

spec sp_nametree(d, k; r) sealed

func Dictionary.GetPageTree(d, key; r, ok)
  props C19 C23
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C19 C23] found: ok == sp_isdict(sp_dget(d, key))
  reveal sp_pagetree
  ensures [C19 C23] list: EQ(r, sp_pagetree(d, key))

spec sp_depth(o; r) uninterpreted
  ensures 0 <= r

spec sp_depths(d, k; r) uninterpreted
  ensures IMP(HAS(d, k), sp_depth(d[k]) < sp_depth(Object(d)))
  ensures sp_depth(Object(Array{})) == 0

spec sp_deptha(a, i; r) uninterpreted
  ensures IMP(0 <= i && i < len(a), sp_depth(a[i]) < sp_depth(Object(a)))
  ensures sp_depth(Object(Dictionary{})) == 0

spec sp_names_seen(d, seen; r)
  decreases sp_unvisited(seen), sp_depth(Object(d)), 1, 0
  hint sp_visit(sp_refat(d, "Kids").parser, seen, sp_refat(d, "Kids").Number)
  hint sp_deref_known(sp_refat(d, "Kids"))
  hint sp_depths(d, "Kids")
  ensures sp_unvisited(r) <= sp_unvisited(seen)

spec sp_namekids_seen(a, i, seen; r)
  decreases sp_unvisited(seen), sp_depth(Object(a)), 0, len(a) - i
  hint sp_visit(sp_refof(a, i).parser, seen, sp_refof(a, i).Number)
  hint sp_deref_known(sp_refof(a, i))
  hint sp_deptha(a, i)
  ensures sp_unvisited(r) <= sp_unvisited(seen)

spec sp_names(d, seen; r)
  decreases sp_unvisited(seen), sp_depth(Object(d)), 1, 0
  hint sp_visit(sp_refat(d, "Kids").parser, seen, sp_refat(d, "Kids").Number)
  hint sp_deref_known(sp_refat(d, "Kids"))
  hint sp_depths(d, "Kids")

spec sp_namekids(a, i, seen; r)
  decreases sp_unvisited(seen), sp_depth(Object(a)), 0, len(a) - i
  hint sp_visit(sp_refof(a, i).parser, seen, sp_refof(a, i).Number)
  hint sp_deref_known(sp_refof(a, i))
  hint sp_deptha(a, i)

func Dictionary.getNameTreeMap(d, resolved_kids; r)
  props C19 C22
  mutates resolved_kids
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  decreases sp_unread(), 13, sp_unvisited(resolved_kids), sp_depth(Object(d))
  use sp_visit(sp_refat(d, "Kids").parser, resolved_kids, sp_refat(d, "Kids").Number)
  use sp_deref_known(sp_refat(d, "Kids"))
  use sp_depths(d, "Kids")
  ensures [C19 C22] list: EQ(r, sp_names(d, OLD(resolved_kids)))
  ensures [C19 C22] seen: EQ(resolved_kids, sp_names_seen(d, OLD(resolved_kids)))
  loop 1
    invariant EQ(CAT(nameTreeMap, sp_namekids(kids, IDX, resolved_kids)), sp_names(d, OLD(resolved_kids)))
    invariant EQ(sp_namekids_seen(kids, IDX, resolved_kids), sp_names_seen(d, OLD(resolved_kids)))
    invariant sp_unvisited(resolved_kids) < sp_unvisited(OLD(resolved_kids)) || sp_unvisited(resolved_kids) == sp_unvisited(OLD(resolved_kids)) && sp_depth(Object(kids)) <= sp_depth(Object(d))
    use sp_visit(sp_refof(kids, IDX).parser, resolved_kids, sp_refof(kids, IDX).Number)
    use sp_deref_known(sp_refof(kids, IDX))
    use sp_deptha(kids, IDX)

func Dictionary.GetNameTreeMap(d, key; r)
  props C19 C22
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  reveal sp_nametree
  ensures [C19 C22] list: EQ(r, sp_nametree(d, key))
