// Extraction: what every object adds to the reports and the output directory. A map is
// ranged over in an order that is a function of the map, each key once.
spec sp_dictkeys(d; r) uninterpreted

spec sp_more_commands(d, i; r)
  decreases len(sp_dictkeys(d)) - i

spec sp_embed_commands(a, i; r)
  decreases len(a) - i

spec sp_own_commands(d; r) sealed

spec sp_more_urls(d, i; r)
  decreases len(sp_dictkeys(d)) - i

spec sp_embed_urls(a, i; r)
  decreases len(a) - i

spec sp_own_urls(d; r) sealed

spec sp_more_files(d, i; r)
  decreases len(sp_dictkeys(d)) - i

spec sp_embed_files(a, i; r)
  decreases len(a) - i

spec sp_own_files(d; r) sealed

spec sp_tree_urls(a, i; r)
  decreases len(a) - i

spec sp_formparts(a, i; r)
  decreases len(a) - i

spec sp_more_dir(d, i, dir; r)
  decreases len(sp_dictkeys(d)) - i

spec sp_embed_dir(a, i, dir; r)
  decreases len(a) - i

spec sp_own_dir(d, dir; r) sealed

spec sp_own_scripts(d; r) sealed

spec sp_own_text(d; r) sealed

spec sp_pages_text(l, i; r)
  decreases len(l) - i

spec sp_all_commands(o; r)
  decreases sp_depth(o), 1, 0

spec sp_within_commands(d, i; r)
  decreases sp_depth(Object(d)), 0, len(sp_dictkeys(d)) - i
  hint sp_depths(d, sp_dictkeys(d)[i])

spec sp_elems_commands(a, i; r)
  decreases sp_depth(Object(a)), 0, len(a) - i
  hint sp_deptha(a, i)

spec sp_all_urls(o; r)
  decreases sp_depth(o), 1, 0

spec sp_within_urls(d, i; r)
  decreases sp_depth(Object(d)), 0, len(sp_dictkeys(d)) - i
  hint sp_depths(d, sp_dictkeys(d)[i])

spec sp_elems_urls(a, i; r)
  decreases sp_depth(Object(a)), 0, len(a) - i
  hint sp_deptha(a, i)

spec sp_all_files(o; r)
  decreases sp_depth(o), 1, 0

spec sp_within_files(d, i; r)
  decreases sp_depth(Object(d)), 0, len(sp_dictkeys(d)) - i
  hint sp_depths(d, sp_dictkeys(d)[i])

spec sp_elems_files(a, i; r)
  decreases sp_depth(Object(a)), 0, len(a) - i
  hint sp_deptha(a, i)

spec sp_all_dir(o, dir; r)
  decreases sp_depth(o), 1, 0

spec sp_within_dir(d, i, dir; r)
  decreases sp_depth(Object(d)), 0, len(sp_dictkeys(d)) - i
  hint sp_depths(d, sp_dictkeys(d)[i])

spec sp_elems_dir(a, i, dir; r)
  decreases sp_depth(Object(a)), 0, len(a) - i
  hint sp_deptha(a, i)

spec sp_all_scripts(o; r)
  decreases sp_depth(o), 1, 0

spec sp_within_scripts(d, i; r)
  decreases sp_depth(Object(d)), 0, len(sp_dictkeys(d)) - i
  hint sp_depths(d, sp_dictkeys(d)[i])

spec sp_elems_scripts(a, i; r)
  decreases sp_depth(Object(a)), 0, len(a) - i
  hint sp_deptha(a, i)

spec sp_all_text(o; r)
  decreases sp_depth(o), 1, 0

spec sp_within_text(d, i; r)
  decreases sp_depth(Object(d)), 0, len(sp_dictkeys(d)) - i
  hint sp_depths(d, sp_dictkeys(d)[i])

spec sp_elems_text(a, i; r)
  decreases sp_depth(Object(a)), 0, len(a) - i
  hint sp_deptha(a, i)

func extract(o, output)
  props C21 C22 C23
  requires sp_complete(output)
  requires sp_nofont(FontDefault)
  modifies g_buf(output.Commands), g_buf(output.URLs), g_buf(output.Files), g_buf(output.Javascript), g_buf(output.Text), g_dir(sp_place(output.Directory)), g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  decreases sp_depth(o)
  reveal sp_pagetree, sp_own_commands, sp_own_urls, sp_own_files, sp_own_dir, sp_own_scripts, sp_own_text
  ensures [C22] commands: EQ(g_buf(output.Commands), CAT(OLD(g_buf(output.Commands)), sp_all_commands(o)))
  ensures [C22] urls: EQ(g_buf(output.URLs), CAT(OLD(g_buf(output.URLs)), sp_all_urls(o)))
  ensures [C22 C21] files: EQ(g_buf(output.Files), CAT(OLD(g_buf(output.Files)), sp_all_files(o)))
  ensures [C22] scripts: EQ(g_buf(output.Javascript), CAT(OLD(g_buf(output.Javascript)), sp_all_scripts(o)))
  ensures [C23] text: EQ(g_buf(output.Text), CAT(OLD(g_buf(output.Text)), sp_all_text(o)))
  ensures [C22 C21] data: EQ(g_dir(sp_place(output.Directory)), sp_all_dir(o, OLD(g_dir(sp_place(output.Directory)))))
  loop 1 keys=sp_dictkeys
    invariant EQ(CAT(g_buf(output.Commands), sp_more_commands(aa, IDX)), CAT(OLD(g_buf(output.Commands)), CAT(sp_act_commands(d, "A"), CAT(sp_act_commands(d, "OpenAction"), sp_aa_commands(d)))))
    invariant EQ(CAT(g_buf(output.URLs), sp_more_urls(aa, IDX)), CAT(OLD(g_buf(output.URLs)), CAT(sp_act_urls(d, "A"), CAT(sp_act_urls(d, "OpenAction"), sp_aa_urls(d)))))
    invariant EQ(CAT(g_buf(output.Files), sp_more_files(aa, IDX)), CAT(OLD(g_buf(output.Files)), CAT(sp_act_files(d, "A"), CAT(sp_act_files(d, "OpenAction"), sp_aa_files(d)))))
    invariant EQ(sp_more_dir(aa, IDX, g_dir(sp_place(output.Directory))), sp_aa_dir(d, sp_act_dir(d, "OpenAction", sp_act_dir(d, "A", OLD(g_dir(sp_place(output.Directory)))))))
  loop 2
    invariant EQ(CAT(g_buf(form_data), sp_formparts(xfa, IDX)), sp_formparts(xfa, 0))
  loop 3
    invariant 1 <= i
    invariant EQ(CAT(g_buf(output.Commands), sp_embed_commands(embedded_files, i)), CAT(OLD(g_buf(output.Commands)), sp_own_commands(d)))
    invariant EQ(CAT(g_buf(output.Files), sp_embed_files(embedded_files, i)), CAT(OLD(g_buf(output.Files)), sp_own_files(d)))
    invariant EQ(CAT(g_buf(output.URLs), CAT(sp_embed_urls(embedded_files, i), CAT(sp_uri_urls(d), sp_tree_urls(sp_nametree(d, "URLS"), 0)))), CAT(OLD(g_buf(output.URLs)), sp_own_urls(d)))
    invariant EQ(sp_embed_dir(embedded_files, i, g_dir(sp_place(output.Directory))), sp_own_dir(d, OLD(g_dir(sp_place(output.Directory)))))
  loop 4
    invariant EQ(CAT(g_buf(output.Text), sp_pages_text(pages, IDX)), CAT(PRE(g_buf(output.Text)), sp_pages_text(pages, 0)))
  loop 5
    invariant 0 <= i
    invariant EQ(CAT(g_buf(output.URLs), sp_tree_urls(urls, i)), CAT(OLD(g_buf(output.URLs)), sp_own_urls(d)))
  loop 6 keys=sp_dictkeys
    invariant EQ(CAT(g_buf(output.Commands), sp_within_commands(d, IDX)), CAT(OLD(g_buf(output.Commands)), sp_all_commands(o)))
    invariant EQ(CAT(g_buf(output.URLs), sp_within_urls(d, IDX)), CAT(OLD(g_buf(output.URLs)), sp_all_urls(o)))
    invariant EQ(CAT(g_buf(output.Files), sp_within_files(d, IDX)), CAT(OLD(g_buf(output.Files)), sp_all_files(o)))
    invariant EQ(CAT(g_buf(output.Javascript), sp_within_scripts(d, IDX)), CAT(OLD(g_buf(output.Javascript)), sp_all_scripts(o)))
    invariant EQ(CAT(g_buf(output.Text), sp_within_text(d, IDX)), CAT(OLD(g_buf(output.Text)), sp_all_text(o)))
    invariant EQ(sp_within_dir(d, IDX, g_dir(sp_place(output.Directory))), sp_all_dir(o, OLD(g_dir(sp_place(output.Directory)))))
    use sp_depths(d, sp_dictkeys(d)[IDX])
  loop 7
    invariant EQ(CAT(g_buf(output.Commands), sp_elems_commands(a, IDX)), CAT(OLD(g_buf(output.Commands)), sp_all_commands(o)))
    invariant EQ(CAT(g_buf(output.URLs), sp_elems_urls(a, IDX)), CAT(OLD(g_buf(output.URLs)), sp_all_urls(o)))
    invariant EQ(CAT(g_buf(output.Files), sp_elems_files(a, IDX)), CAT(OLD(g_buf(output.Files)), sp_all_files(o)))
    invariant EQ(CAT(g_buf(output.Javascript), sp_elems_scripts(a, IDX)), CAT(OLD(g_buf(output.Javascript)), sp_all_scripts(o)))
    invariant EQ(CAT(g_buf(output.Text), sp_elems_text(a, IDX)), CAT(OLD(g_buf(output.Text)), sp_all_text(o)))
    invariant EQ(sp_elems_dir(a, IDX, g_dir(sp_place(output.Directory))), sp_all_dir(o, OLD(g_dir(sp_place(output.Directory)))))
    use sp_deptha(a, IDX)

func IndirectObject.Extract(object, output)
  props C21 C22 C23
  requires sp_complete(output)
  requires sp_nofont(FontDefault)
  modifies g_buf(output.Commands), g_buf(output.URLs), g_buf(output.Files), g_buf(output.Javascript), g_buf(output.Text), g_dir(sp_place(output.Directory)), g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C22] commands: EQ(g_buf(output.Commands), CAT(OLD(g_buf(output.Commands)), sp_all_commands(object.Value)))
  ensures [C22] urls: EQ(g_buf(output.URLs), CAT(OLD(g_buf(output.URLs)), sp_all_urls(object.Value)))
  ensures [C22 C21] files: EQ(g_buf(output.Files), CAT(OLD(g_buf(output.Files)), sp_all_files(object.Value)))
  ensures [C22] scripts: EQ(g_buf(output.Javascript), CAT(OLD(g_buf(output.Javascript)), sp_all_scripts(object.Value)))
  ensures [C23] text: EQ(g_buf(output.Text), CAT(OLD(g_buf(output.Text)), sp_all_text(object.Value)))
  ensures [C22 C21] data: EQ(g_dir(sp_place(output.Directory)), sp_all_dir(object.Value, OLD(g_dir(sp_place(output.Directory)))))
