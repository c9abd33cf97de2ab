package pdf

const sp_zerohash = "00000000000000000000000000000000"

// sp_url: the file specification is a link.
func sp_url(d Dictionary) bool {
	if sp_isname(sp_dget(d, "FS")) {
		return sp_nameof(sp_dget(d, "FS")) == "URL"
	}
	return sp_strof(sp_dget(d, "FS")) == "URL"
}

// sp_embedded: the file specification has its data with it.
func sp_embedded(d Dictionary) bool { return !sp_url(d) && sp_isdict(sp_dget(d, "EF")) }

// sp_external: the file specification names a file outside the document.
func sp_external(d Dictionary) bool {
	return !sp_url(d) && !sp_isdict(sp_dget(d, "EF")) && sp_isstr(sp_dget(d, "F"))
}

// sp_filename_of is the name an embedded file is given.
func sp_filename_of(d Dictionary) string {
	if sp_isstr(sp_dget(d, "F")) {
		return sp_strof(sp_dget(d, "F"))
	}
	return sp_zerohash
}

// sp_embedded_data is the data of an embedded file.
func sp_embedded_data(d Dictionary) []byte {
	return sp_dataof(sp_dat(sp_dictof(sp_dget(d, "EF")), "F"))
}

// sp_hash is the lower case MD5 hash of data.
func sp_hash(data []byte) string { return string(sp_lowhex(sp_md5(data), 0)) }

// sp_entry is the manifest entry of dumped data.
func sp_entry(data []byte, name string) []byte { return []byte(sp_hash(data) + ":" + name + "\n") }

// sp_outside is the manifest entry of a file outside the document.
func sp_outside(name string) []byte { return []byte(sp_zerohash + ":" + name + "\n") }

// sp_file_commands, sp_file_urls, sp_file_files: what a file specification adds to the reports.
func sp_file_commands(d Dictionary, command bool) []byte {
	if !sp_external(d) {
		return []byte{}
	}
	if sp_isstr(sp_dget(d, "P")) {
		return []byte(sp_strof(sp_dget(d, "F")) + " " + sp_strof(sp_dget(d, "P")) + "\n")
	}
	if command {
		return []byte(sp_strof(sp_dget(d, "F")) + " \n")
	}
	return []byte{}
}

func sp_file_urls(d Dictionary) []byte {
	if sp_url(d) && sp_isstr(sp_dget(d, "F")) {
		return []byte(sp_strof(sp_dget(d, "F")) + "\n")
	}
	return []byte{}
}

func sp_file_files(d Dictionary) []byte {
	if sp_embedded(d) {
		return sp_entry(sp_embedded_data(d), sp_filename_of(d))
	}
	if sp_external(d) {
		return sp_outside(sp_strof(sp_dget(d, "F")))
	}
	return []byte{}
}

// sp_file_dir: an embedded file becomes a file of the output directory.
func sp_file_dir(d Dictionary, dir map[string]string) map[string]string {
	if sp_embedded(d) {
		return MPUT(dir, sp_hash(sp_embedded_data(d)), string(sp_embedded_data(d)))
	}
	return dir
}

// sp_launch: the action runs a command.
func sp_launch(d Dictionary) bool {
	return sp_isname(sp_dget(d, "S")) && sp_nameof(sp_dget(d, "S")) == "Launch"
}

// sp_action_commands, sp_action_urls, sp_action_files, sp_action_dir: what an action adds.
func sp_action_commands(d Dictionary) []byte {
	return CAT(sp_action_f_commands(d), sp_action_win_commands(d))
}

func sp_action_f_commands(d Dictionary) []byte {
	if sp_isstr(sp_dget(d, "F")) {
		if sp_launch(d) {
			return []byte(sp_strof(sp_dget(d, "F")) + "\n")
		}
		return []byte{}
	}
	if sp_isdict(sp_dget(d, "F")) {
		return sp_file_commands(sp_dictof(sp_dget(d, "F")), sp_launch(d))
	}
	return []byte{}
}

func sp_action_win_commands(d Dictionary) []byte {
	if sp_isdict(sp_dget(d, "Win")) {
		return sp_file_commands(sp_dictof(sp_dget(d, "Win")), sp_launch(d))
	}
	return []byte{}
}

func sp_action_urls(d Dictionary) []byte {
	return CAT(sp_action_f_urls(d), sp_action_win_urls(d))
}

func sp_action_f_urls(d Dictionary) []byte {
	if sp_isdict(sp_dget(d, "F")) {
		return sp_file_urls(sp_dictof(sp_dget(d, "F")))
	}
	return []byte{}
}

func sp_action_win_urls(d Dictionary) []byte {
	if sp_isdict(sp_dget(d, "Win")) {
		return sp_file_urls(sp_dictof(sp_dget(d, "Win")))
	}
	return []byte{}
}

func sp_action_files(d Dictionary) []byte {
	return CAT(sp_action_f_files(d), sp_action_win_files(d))
}

func sp_action_f_files(d Dictionary) []byte {
	if sp_isstr(sp_dget(d, "F")) {
		return sp_outside(sp_strof(sp_dget(d, "F")))
	}
	if sp_isdict(sp_dget(d, "F")) {
		return sp_file_files(sp_dictof(sp_dget(d, "F")))
	}
	return []byte{}
}

func sp_action_win_files(d Dictionary) []byte {
	if sp_isdict(sp_dget(d, "Win")) {
		return sp_file_files(sp_dictof(sp_dget(d, "Win")))
	}
	return []byte{}
}

func sp_action_dir(d Dictionary, dir map[string]string) map[string]string {
	return sp_action_win_dir(d, sp_action_f_dir(d, dir))
}

func sp_action_f_dir(d Dictionary, dir map[string]string) map[string]string {
	if sp_isdict(sp_dget(d, "F")) {
		return sp_file_dir(sp_dictof(sp_dget(d, "F")), dir)
	}
	return dir
}

func sp_action_win_dir(d Dictionary, dir map[string]string) map[string]string {
	if sp_isdict(sp_dget(d, "Win")) {
		return sp_file_dir(sp_dictof(sp_dget(d, "Win")), dir)
	}
	return dir
}
