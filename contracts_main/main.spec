// The command line tool. Only Parse touches the file system (its contract is in
// contracts/); any other library call than these would have no contract.
ghost g_runs, g_file, g_secret, g_out, g_tty, g_parsed

spec sp_process(; r) uninterpreted
spec sp_exists(path; r) uninterpreted
spec sp_isabsent(err; r) uninterpreted
spec sp_arg(i; r) uninterpreted

extern os.Stat(name; info, err)
  ensures IFF(sp_isabsent(err), !sp_exists(name))

extern os.IsNotExist(err; r)
  ensures r == sp_isabsent(err)

extern os.Lstat(name; info, err)

extern errors.Is(err, target; r)
  ensures IMP(target == os.ErrNotExist, r == sp_isabsent(err))

extern flag.Usage()
  modifies g_tty(EVERY)

extern error.Error(err; r)

spec sp_switch(p, name, value; r) uninterpreted
spec sp_text(p, name, value; r) uninterpreted
spec sp_nargs(; r) uninterpreted

extern flag.Bool(name, value, usage; r)
  requires !g_parsed(sp_process())
  ensures r != nil && sp_switch(r, name, value)

extern flag.String(name, value, usage; r)
  requires !g_parsed(sp_process())
  ensures r != nil && sp_text(r, name, value)

extern flag.Parse()
  modifies g_parsed(sp_process())
  ensures g_parsed(sp_process())

extern flag.NArg(; n)
  requires g_parsed(sp_process())
  ensures n == sp_nargs()

extern os.Exit(code) noreturn

extern flag.Arg(i; r)
  ensures r == sp_arg(i)

extern github.com/KarmaPenny/pdfparser/pdf.Parse(file, password, output; err)
  modifies g_runs(sp_process()), g_file(sp_process()), g_secret(sp_process()), g_out(sp_process())
  ensures g_runs(sp_process()) == OLD(g_runs(sp_process())) + 1
  ensures g_file(sp_process()) == file && g_secret(sp_process()) == password && g_out(sp_process()) == output

func main()
  props C25
  modifies g_runs(sp_process()), g_file(sp_process()), g_secret(sp_process()), g_out(sp_process()), g_tty(EVERY)
  requires overwrite != nil && password != nil
  ensures [C25] kept: IMP(sp_kept(), g_runs(sp_process()) == OLD(g_runs(sp_process())))
  ensures [C25] once: IMP(!sp_kept(), g_runs(sp_process()) == OLD(g_runs(sp_process())) + 1)
  ensures [C25] document: IMP(!sp_kept(), g_file(sp_process()) == sp_arg(0))
  ensures [C25] secret: IMP(!sp_kept(), g_secret(sp_process()) == *password)
  ensures [C25] directory: IMP(!sp_kept(), g_out(sp_process()) == sp_arg(1))

func usage()
  props C25
  modifies g_tty(EVERY)

func init()
  props C25
  requires !g_parsed(sp_process())
  modifies overwrite, password, pdf.Verbose, flag.Usage, g_tty(EVERY), g_parsed(sp_process())
  ensures [C25] overwrite: overwrite != nil && sp_switch(overwrite, "f", false)
  ensures [C25] password: password != nil && sp_text(password, "p", "")
  ensures [C25] parsed: g_parsed(sp_process())
  ensures [C25] arguments: sp_nargs() == 2
