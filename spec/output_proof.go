package pdf

import "os"

// g_dir is what files the directory at a place holds, by name; g_open whether a
// file is open; g_handles how many files are open.
func g_dir(place any) map[string]string { panic("ghost") }
func g_open(f any) bool                 { panic("ghost") }
func g_handles(process any) int         { panic("ghost") }

// sp_process is this process, sp_place the directory of a path, sp_in and sp_filename
// the directory and name a path leads to.
func sp_process() any            { panic("uninterpreted") }
func sp_place(path string) any   { panic("uninterpreted") }
func sp_in(path string) any      { panic("uninterpreted") }
func sp_filename(path string) string { panic("uninterpreted") }

// sp_openerr, sp_createerr: the error of opening or creating a file.
func sp_openerr(path string) error              { panic("uninterpreted") }
func sp_createerr(place any, name string) error { panic("uninterpreted") }

// sp_filedir, sp_called: the directory and name of a file.
func sp_filedir(f any) any        { panic("uninterpreted") }
func sp_called(f any) string { panic("uninterpreted") }

// sp_written: the file was created to be written to.
func sp_written(f any) bool { panic("uninterpreted") }

// sp_report: f is the empty file of that name in the directory, open.
func sp_report(f *os.File, dir string, name string) bool {
	return f != nil && sp_filedir(f) == sp_place(dir) && sp_called(f) == name && g_open(f) && len(g_buf(f)) == 0 && HAS(g_dir(sp_place(dir)), name)
}

// sp_creatable: all reports can be created in the directory.
func sp_creatable(dir string) bool {
	return sp_createerr(sp_place(dir), "commands.txt") == nil && sp_createerr(sp_place(dir), "errors.txt") == nil &&
		sp_createerr(sp_place(dir), "files.txt") == nil && sp_createerr(sp_place(dir), "javascript.js") == nil &&
		sp_createerr(sp_place(dir), "raw.pdf") == nil && sp_createerr(sp_place(dir), "contents.txt") == nil &&
		sp_createerr(sp_place(dir), "urls.txt") == nil
}

// sp_apart: a and b are different files, if both are there.
func sp_apart(a, b *os.File) bool { return a == nil || b == nil || a != b }

// sp_distinct: no two reports are the same file.
func sp_distinct(o *Output) bool {
	return sp_apart(o.Commands, o.Errors) && sp_apart(o.Commands, o.Files) && sp_apart(o.Commands, o.Javascript) &&
		sp_apart(o.Commands, o.Raw) && sp_apart(o.Commands, o.Text) && sp_apart(o.Commands, o.URLs) &&
		sp_apart(o.Errors, o.Files) && sp_apart(o.Errors, o.Javascript) && sp_apart(o.Errors, o.Raw) &&
		sp_apart(o.Errors, o.Text) && sp_apart(o.Errors, o.URLs) && sp_apart(o.Files, o.Javascript) &&
		sp_apart(o.Files, o.Raw) && sp_apart(o.Files, o.Text) && sp_apart(o.Files, o.URLs) &&
		sp_apart(o.Javascript, o.Raw) && sp_apart(o.Javascript, o.Text) && sp_apart(o.Javascript, o.URLs) &&
		sp_apart(o.Raw, o.Text) && sp_apart(o.Raw, o.URLs) && sp_apart(o.Text, o.URLs)
}

// sp_opened is how many reports are open.
func sp_opened(o *Output) int {
	return sp_one(o.Commands) + sp_one(o.Errors) + sp_one(o.Files) + sp_one(o.Javascript) + sp_one(o.Raw) + sp_one(o.Text) + sp_one(o.URLs)
}

func sp_one(f *os.File) int {
	if f != nil && g_open(f) {
		return 1
	}
	return 0
}

// sp_complete: all reports are there, and no two are the same file.
func sp_complete(o *Output) bool {
	return o != nil && sp_distinct(o) && o.Commands != nil && o.Errors != nil && o.Files != nil && o.Javascript != nil && o.Raw != nil && o.Text != nil && o.URLs != nil
}
