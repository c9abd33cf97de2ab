package main

// The process: how often a document was extracted, and which document with which
// password to which directory last.
func g_runs(process any) int      { panic("ghost") }
func g_file(process any) string   { panic("ghost") }
func g_secret(process any) string { panic("ghost") }
func g_out(process any) string    { panic("ghost") }

func sp_process() any { panic("uninterpreted") }

// sp_exists: something is at the path.
func sp_exists(path string) bool { panic("uninterpreted") }

// sp_isabsent: the error says that nothing is there.
func sp_isabsent(err error) bool { panic("uninterpreted") }

// sp_arg is an argument of the command line.
func sp_arg(i int) string { panic("uninterpreted") }

// sp_kept: the output directory is there and may not be overwritten.
func sp_kept() bool { return sp_exists(sp_arg(1)) && !*overwrite }

func g_tty(w any) []byte                                { panic("ghost") }
func g_parsed(process any) bool                         { panic("ghost") }
func sp_switch(p *bool, name string, value bool) bool   { panic("uninterpreted") }
func sp_text(p *string, name string, value string) bool { panic("uninterpreted") }
func sp_nargs() int                                     { panic("uninterpreted") }
