// Files: what a directory holds, which files are open. The library functions act
// on the directory and name their path leads to.
ghost g_dir, g_open, g_handles


spec sp_process(; r) uninterpreted
spec sp_place(path; r) uninterpreted
spec sp_in(path; r) uninterpreted
spec sp_filename(path; r) uninterpreted
spec sp_openerr(path; r) uninterpreted
spec sp_createerr(place, name; r) uninterpreted

spec sp_plainrest(s, i; r)
  decreases len(s) - i

spec sp_lowhex(b, i; r)
  ensures IMP(0 <= i && i <= len(b), len(r) == 2*(len(b) - i))
  decreases len(b) - i

spec sp_filedir(f; r) uninterpreted
spec sp_called(f; r) uninterpreted
spec sp_written(f; r) uninterpreted

extern os.Open(name; f, err)
  modifies g_handles(sp_process())
  ensures err == sp_openerr(name)
  ensures IMP(err == nil, f != nil && ISNEW(f) && g_open(f) && !g_taken(f) && !sp_written(f) && g_handles(sp_process()) == OLD(g_handles(sp_process())) + 1)
  ensures IMP(err != nil, f == nil && g_handles(sp_process()) == OLD(g_handles(sp_process())))

extern os.Create(name; f, err)
  modifies g_handles(sp_process()), g_dir(sp_in(name))
  ensures err == sp_createerr(sp_in(name), sp_filename(name))
  ensures IMP(err == nil, f != nil && ISNEW(f) && g_open(f) && sp_written(f) && g_handles(sp_process()) == OLD(g_handles(sp_process())) + 1)
  ensures IMP(err == nil, sp_filedir(f) == sp_in(name) && sp_called(f) == sp_filename(name))
  ensures IMP(err == nil, len(g_buf(f)) == 0 && EQ(g_dir(sp_in(name)), MPUT(OLD(g_dir(sp_in(name))), sp_filename(name), "")))
  ensures IMP(err != nil, f == nil && g_handles(sp_process()) == OLD(g_handles(sp_process())) && EQ(g_dir(sp_in(name)), OLD(g_dir(sp_in(name)))))

extern os.File.Close(f; err)
  modifies g_open(f), g_handles(sp_process())
  ensures !g_open(f)
  ensures g_handles(sp_process()) == OLD(g_handles(sp_process())) - ITE(OLD(g_open(f)), 1, 0)

extern os.RemoveAll(name; err)
  modifies g_dir(sp_place(name))

extern os.MkdirAll(name, perm; err)

extern path.Join(parts; r)
  ensures IMP(len(parts) == 2 && sp_plainname(parts[1]), sp_in(r) == sp_place(parts[0]) && sp_filename(r) == parts[1])

extern io/ioutil.WriteFile(name, data, perm; err)
  modifies g_dir(sp_in(name))
  ensures EQ(g_dir(sp_in(name)), MPUT(OLD(g_dir(sp_in(name))), sp_filename(name), string(data)))

extern encoding/hex.EncodeToString(b; s)
  ensures s == string(sp_lowhex(b, 0))
  ensures IMP(len(b) > 0, sp_plainname(s))

func NewOutput(directory; output, err)
  props C21 C24
  modifies g_handles(sp_process()), g_dir(sp_place(directory))
  ensures output != nil && ISNEW(output) && output.Directory == directory
  ensures [C24] commands: IMP(err == nil, sp_report(output.Commands, directory, "commands.txt"))
  ensures [C24] errors: IMP(err == nil, sp_report(output.Errors, directory, "errors.txt"))
  ensures [C24] files: IMP(err == nil, sp_report(output.Files, directory, "files.txt"))
  ensures [C24] javascript: IMP(err == nil, sp_report(output.Javascript, directory, "javascript.js"))
  ensures [C24] raw: IMP(err == nil, sp_report(output.Raw, directory, "raw.pdf"))
  ensures [C24] text: IMP(err == nil, sp_report(output.Text, directory, "contents.txt"))
  ensures [C24] urls: IMP(err == nil, sp_report(output.URLs, directory, "urls.txt"))
  ensures [C24] distinct: sp_distinct(output)
  ensures [C24] failed: IFF(err == nil, sp_creatable(directory))
  ensures [C24] writable: (output.Commands == nil || sp_written(output.Commands)) && (output.Errors == nil || sp_written(output.Errors)) && (output.Files == nil || sp_written(output.Files)) && (output.Javascript == nil || sp_written(output.Javascript)) && (output.Raw == nil || sp_written(output.Raw)) && (output.Text == nil || sp_written(output.Text)) && (output.URLs == nil || sp_written(output.URLs))
  ensures [C24] opened: g_handles(sp_process()) == OLD(g_handles(sp_process())) + sp_opened(output)
  ensures [C24] nothingelse: IMP(err == nil, sp_opened(output) == 7)

func Output.Close(output)
  props C24
  requires sp_distinct(output)
  modifies g_handles(sp_process()), g_open(output.Commands), g_open(output.Errors), g_open(output.Files), g_open(output.Javascript), g_open(output.Raw), g_open(output.Text), g_open(output.URLs)
  ensures [C24] closed: sp_opened(output) == 0
  ensures [C24] handles: g_handles(sp_process()) == OLD(g_handles(sp_process())) - OLD(sp_opened(output))

func Output.DumpFile(output, name, data)
  props C21
  modifies g_buf(output.Files), g_dir(sp_place(output.Directory))
  ensures [C21] entry: EQ(g_buf(output.Files), CAT(OLD(g_buf(output.Files)), []byte(string(sp_lowhex(sp_md5(data), 0)) + ":" + name + "\n")))
  ensures [C21] data: EQ(g_dir(sp_place(output.Directory)), MPUT(OLD(g_dir(sp_place(output.Directory))), string(sp_lowhex(sp_md5(data), 0)), string(data)))
