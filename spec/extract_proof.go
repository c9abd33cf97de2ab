package pdf

// sp_dictkeys is the order in which the keys of a dictionary are ranged over.
func sp_dictkeys(d Dictionary) []string { panic("uninterpreted") }

// sp_lastkey: there is no key at i.
func sp_lastkey(d Dictionary, i int) bool {
	return i < 0 || i >= len(sp_dictkeys(d)) || !HAS(d, sp_dictkeys(d)[i])
}

// Commands.

func sp_act_commands(d Dictionary, k string) []byte {
	if sp_isdict(sp_dget(d, k)) {
		return sp_action_commands(sp_dictof(sp_dget(d, k)))
	}
	return []byte{}
}

func sp_more_commands(d Dictionary, i int) []byte {
	if sp_lastkey(d, i) {
		return []byte{}
	}
	return CAT(sp_act_commands(d, sp_dictkeys(d)[i]), sp_more_commands(d, i+1))
}

func sp_aa_commands(d Dictionary) []byte {
	if sp_isdict(sp_dget(d, "AA")) {
		return sp_more_commands(sp_dictof(sp_dget(d, "AA")), 0)
	}
	return []byte{}
}

func sp_embed_commands(a Array, i int) []byte {
	if i < 0 || i >= len(a) {
		return []byte{}
	}
	if sp_isdict(sp_aget(a, i)) {
		return CAT(sp_file_commands(sp_dictof(sp_aget(a, i)), false), sp_embed_commands(a, i+2))
	}
	return sp_embed_commands(a, i+2)
}

// sp_own_commands: what a dictionary itself adds to the commands.
func sp_own_commands(d Dictionary) []byte {
	return CAT(sp_act_commands(d, "A"), CAT(sp_act_commands(d, "OpenAction"), CAT(sp_aa_commands(d), sp_embed_commands(sp_nametree(d, "EmbeddedFiles"), 1))))
}

// sp_all_commands: what an object and all that is nested in it adds.
func sp_all_commands(o Object) []byte {
	if d, ok := o.(Dictionary); ok {
		return CAT(sp_own_commands(d), sp_within_commands(d, 0))
	}
	if a, ok := o.(Array); ok {
		return sp_elems_commands(a, 0)
	}
	return []byte{}
}

func sp_within_commands(d Dictionary, i int) []byte {
	if sp_lastkey(d, i) {
		return []byte{}
	}
	return CAT(sp_all_commands(d[sp_dictkeys(d)[i]]), sp_within_commands(d, i+1))
}

func sp_elems_commands(a Array, i int) []byte {
	if i < 0 || i >= len(a) {
		return []byte{}
	}
	return CAT(sp_all_commands(a[i]), sp_elems_commands(a, i+1))
}

// Links.

func sp_act_urls(d Dictionary, k string) []byte {
	if sp_isdict(sp_dget(d, k)) {
		return sp_action_urls(sp_dictof(sp_dget(d, k)))
	}
	return []byte{}
}

func sp_more_urls(d Dictionary, i int) []byte {
	if sp_lastkey(d, i) {
		return []byte{}
	}
	return CAT(sp_act_urls(d, sp_dictkeys(d)[i]), sp_more_urls(d, i+1))
}

func sp_aa_urls(d Dictionary) []byte {
	if sp_isdict(sp_dget(d, "AA")) {
		return sp_more_urls(sp_dictof(sp_dget(d, "AA")), 0)
	}
	return []byte{}
}

func sp_embed_urls(a Array, i int) []byte {
	if i < 0 || i >= len(a) {
		return []byte{}
	}
	if sp_isdict(sp_aget(a, i)) {
		return CAT(sp_file_urls(sp_dictof(sp_aget(a, i))), sp_embed_urls(a, i+2))
	}
	return sp_embed_urls(a, i+2)
}

// sp_uri_urls: the link of a dictionary, or the base of the links of the document.
func sp_uri_urls(d Dictionary) []byte {
	if sp_isstr(sp_dget(d, "URI")) {
		return []byte(sp_strof(sp_dget(d, "URI")) + "\n")
	}
	if sp_isdict(sp_dget(d, "URI")) && sp_isstr(sp_dget(sp_dictof(sp_dget(d, "URI")), "Base")) {
		return []byte(sp_strof(sp_dget(sp_dictof(sp_dget(d, "URI")), "Base")) + "\n")
	}
	return []byte{}
}

// sp_tree_urls: the keys of the tree of links.
func sp_tree_urls(a Array, i int) []byte {
	if i < 0 || i >= len(a) {
		return []byte{}
	}
	if sp_isstr(sp_aget(a, i)) {
		return CAT([]byte(sp_strof(sp_aget(a, i))+"\n"), sp_tree_urls(a, i+2))
	}
	return sp_tree_urls(a, i+2)
}

func sp_own_urls(d Dictionary) []byte {
	return CAT(sp_act_urls(d, "A"), CAT(sp_act_urls(d, "OpenAction"), CAT(sp_aa_urls(d), CAT(sp_embed_urls(sp_nametree(d, "EmbeddedFiles"), 1), CAT(sp_uri_urls(d), sp_tree_urls(sp_nametree(d, "URLS"), 0))))))
}

func sp_all_urls(o Object) []byte {
	if d, ok := o.(Dictionary); ok {
		return CAT(sp_own_urls(d), sp_within_urls(d, 0))
	}
	if a, ok := o.(Array); ok {
		return sp_elems_urls(a, 0)
	}
	return []byte{}
}

func sp_within_urls(d Dictionary, i int) []byte {
	if sp_lastkey(d, i) {
		return []byte{}
	}
	return CAT(sp_all_urls(d[sp_dictkeys(d)[i]]), sp_within_urls(d, i+1))
}

func sp_elems_urls(a Array, i int) []byte {
	if i < 0 || i >= len(a) {
		return []byte{}
	}
	return CAT(sp_all_urls(a[i]), sp_elems_urls(a, i+1))
}

// Files: the manifest.

func sp_act_files(d Dictionary, k string) []byte {
	if sp_isdict(sp_dget(d, k)) {
		return sp_action_files(sp_dictof(sp_dget(d, k)))
	}
	return []byte{}
}

func sp_more_files(d Dictionary, i int) []byte {
	if sp_lastkey(d, i) {
		return []byte{}
	}
	return CAT(sp_act_files(d, sp_dictkeys(d)[i]), sp_more_files(d, i+1))
}

func sp_aa_files(d Dictionary) []byte {
	if sp_isdict(sp_dget(d, "AA")) {
		return sp_more_files(sp_dictof(sp_dget(d, "AA")), 0)
	}
	return []byte{}
}

func sp_embed_files(a Array, i int) []byte {
	if i < 0 || i >= len(a) {
		return []byte{}
	}
	if sp_isstr(sp_aget(a, i)) {
		return CAT(sp_outside(sp_strof(sp_aget(a, i))), sp_embed_files(a, i+2))
	}
	if sp_isdict(sp_aget(a, i)) {
		return CAT(sp_file_files(sp_dictof(sp_aget(a, i))), sp_embed_files(a, i+2))
	}
	return sp_embed_files(a, i+2)
}

// sp_hasform: the dictionary has a form; sp_form is its data, in one stream or in several.
func sp_hasform(d Dictionary) bool {
	return sp_hasdata(sp_dat(d, "XFA")) || sp_isarray(sp_dget(d, "XFA"))
}

func sp_form(d Dictionary) []byte {
	if sp_hasdata(sp_dat(d, "XFA")) {
		return sp_dataof(sp_dat(d, "XFA"))
	}
	return sp_formparts(sp_arrof(sp_dget(d, "XFA")), 0)
}

func sp_formparts(a Array, i int) []byte {
	if i < 0 || i >= len(a) {
		return []byte{}
	}
	if sp_hasdata(sp_aat(a, i)) {
		return CAT(sp_dataof(sp_aat(a, i)), sp_formparts(a, i+1))
	}
	return sp_formparts(a, i+1)
}

func sp_form_files(d Dictionary) []byte {
	if sp_hasform(d) {
		return sp_entry(sp_form(d), "form.xml")
	}
	return []byte{}
}

func sp_own_files(d Dictionary) []byte {
	return CAT(sp_act_files(d, "A"), CAT(sp_act_files(d, "OpenAction"), CAT(sp_aa_files(d), CAT(sp_form_files(d), sp_embed_files(sp_nametree(d, "EmbeddedFiles"), 1)))))
}

func sp_all_files(o Object) []byte {
	if d, ok := o.(Dictionary); ok {
		return CAT(sp_own_files(d), sp_within_files(d, 0))
	}
	if a, ok := o.(Array); ok {
		return sp_elems_files(a, 0)
	}
	return []byte{}
}

func sp_within_files(d Dictionary, i int) []byte {
	if sp_lastkey(d, i) {
		return []byte{}
	}
	return CAT(sp_all_files(d[sp_dictkeys(d)[i]]), sp_within_files(d, i+1))
}

func sp_elems_files(a Array, i int) []byte {
	if i < 0 || i >= len(a) {
		return []byte{}
	}
	return CAT(sp_all_files(a[i]), sp_elems_files(a, i+1))
}

// The output directory: embedded files and forms are put there.

func sp_act_dir(d Dictionary, k string, dir map[string]string) map[string]string {
	if sp_isdict(sp_dget(d, k)) {
		return sp_action_dir(sp_dictof(sp_dget(d, k)), dir)
	}
	return dir
}

func sp_more_dir(d Dictionary, i int, dir map[string]string) map[string]string {
	if sp_lastkey(d, i) {
		return dir
	}
	return sp_more_dir(d, i+1, sp_act_dir(d, sp_dictkeys(d)[i], dir))
}

func sp_aa_dir(d Dictionary, dir map[string]string) map[string]string {
	if sp_isdict(sp_dget(d, "AA")) {
		return sp_more_dir(sp_dictof(sp_dget(d, "AA")), 0, dir)
	}
	return dir
}

func sp_form_dir(d Dictionary, dir map[string]string) map[string]string {
	if sp_hasform(d) {
		return MPUT(dir, sp_hash(sp_form(d)), string(sp_form(d)))
	}
	return dir
}

func sp_embed_dir(a Array, i int, dir map[string]string) map[string]string {
	if i < 0 || i >= len(a) {
		return dir
	}
	if sp_isdict(sp_aget(a, i)) {
		return sp_embed_dir(a, i+2, sp_file_dir(sp_dictof(sp_aget(a, i)), dir))
	}
	return sp_embed_dir(a, i+2, dir)
}

func sp_own_dir(d Dictionary, dir map[string]string) map[string]string {
	return sp_embed_dir(sp_nametree(d, "EmbeddedFiles"), 1, sp_form_dir(d, sp_aa_dir(d, sp_act_dir(d, "OpenAction", sp_act_dir(d, "A", dir)))))
}

func sp_all_dir(o Object, dir map[string]string) map[string]string {
	if d, ok := o.(Dictionary); ok {
		return sp_within_dir(d, 0, sp_own_dir(d, dir))
	}
	if a, ok := o.(Array); ok {
		return sp_elems_dir(a, 0, dir)
	}
	return dir
}

func sp_within_dir(d Dictionary, i int, dir map[string]string) map[string]string {
	if sp_lastkey(d, i) {
		return dir
	}
	return sp_within_dir(d, i+1, sp_all_dir(d[sp_dictkeys(d)[i]], dir))
}

func sp_elems_dir(a Array, i int, dir map[string]string) map[string]string {
	if i < 0 || i >= len(a) {
		return dir
	}
	return sp_elems_dir(a, i+1, sp_all_dir(a[i], dir))
}

// Scripts.

func sp_own_scripts(d Dictionary) []byte {
	if sp_isstr(sp_dget(d, "JS")) {
		return []byte(sp_strof(sp_dget(d, "JS")) + "\n")
	}
	if sp_hasdata(sp_dat(d, "JS")) {
		return CAT(sp_dataof(sp_dat(d, "JS")), []byte("\n"))
	}
	return []byte{}
}

func sp_all_scripts(o Object) []byte {
	if d, ok := o.(Dictionary); ok {
		return CAT(sp_own_scripts(d), sp_within_scripts(d, 0))
	}
	if a, ok := o.(Array); ok {
		return sp_elems_scripts(a, 0)
	}
	return []byte{}
}

func sp_within_scripts(d Dictionary, i int) []byte {
	if sp_lastkey(d, i) {
		return []byte{}
	}
	return CAT(sp_all_scripts(d[sp_dictkeys(d)[i]]), sp_within_scripts(d, i+1))
}

func sp_elems_scripts(a Array, i int) []byte {
	if i < 0 || i >= len(a) {
		return []byte{}
	}
	return CAT(sp_all_scripts(a[i]), sp_elems_scripts(a, i+1))
}

// Text: the pages of a page tree, in order.

func sp_pages_text(l []Dictionary, i int) []byte {
	if i < 0 || i >= len(l) {
		return []byte{}
	}
	return CAT(sp_pagetext(l[i]), sp_pages_text(l, i+1))
}

func sp_own_text(d Dictionary) []byte {
	return sp_pages_text(sp_pagetree(d, "Pages"), 0)
}

func sp_all_text(o Object) []byte {
	if d, ok := o.(Dictionary); ok {
		return CAT(sp_own_text(d), sp_within_text(d, 0))
	}
	if a, ok := o.(Array); ok {
		return sp_elems_text(a, 0)
	}
	return []byte{}
}

func sp_within_text(d Dictionary, i int) []byte {
	if sp_lastkey(d, i) {
		return []byte{}
	}
	return CAT(sp_all_text(d[sp_dictkeys(d)[i]]), sp_within_text(d, i+1))
}

func sp_elems_text(a Array, i int) []byte {
	if i < 0 || i >= len(a) {
		return []byte{}
	}
	return CAT(sp_all_text(a[i]), sp_elems_text(a, i+1))
}
