spec sp_file_commands(d, command; r) sealed

spec sp_file_urls(d; r) sealed

spec sp_file_files(d; r) sealed

spec sp_file_dir(d, dir; r) sealed

spec sp_action_commands(d; r) sealed

spec sp_action_urls(d; r) sealed

spec sp_action_files(d; r) sealed

spec sp_action_dir(d, dir; r) sealed

func File.Extract(file, output, isCommand)
  props C21 C22
  reveal sp_file_commands, sp_file_urls, sp_file_files, sp_file_dir
  requires sp_complete(output)
  modifies g_buf(output.Commands), g_buf(output.Files), g_buf(output.URLs), g_dir(sp_place(output.Directory)), g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C22] commands: EQ(g_buf(output.Commands), CAT(OLD(g_buf(output.Commands)), sp_file_commands(Dictionary(file), isCommand)))
  ensures [C22] urls: EQ(g_buf(output.URLs), CAT(OLD(g_buf(output.URLs)), sp_file_urls(Dictionary(file))))
  ensures [C22 C21] files: EQ(g_buf(output.Files), CAT(OLD(g_buf(output.Files)), sp_file_files(Dictionary(file))))
  ensures [C22 C21] data: EQ(g_dir(sp_place(output.Directory)), sp_file_dir(Dictionary(file), OLD(g_dir(sp_place(output.Directory)))))

func Action.Extract(a, output)
  props C21 C22
  reveal sp_action_commands, sp_action_urls, sp_action_files, sp_action_dir
  requires sp_complete(output)
  modifies g_buf(output.Commands), g_buf(output.Files), g_buf(output.URLs), g_dir(sp_place(output.Directory)), g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C22] commands: EQ(g_buf(output.Commands), CAT(OLD(g_buf(output.Commands)), sp_action_commands(Dictionary(a))))
  ensures [C22] urls: EQ(g_buf(output.URLs), CAT(OLD(g_buf(output.URLs)), sp_action_urls(Dictionary(a))))
  ensures [C22 C21] files: EQ(g_buf(output.Files), CAT(OLD(g_buf(output.Files)), sp_action_files(Dictionary(a))))
  ensures [C22 C21] data: EQ(g_dir(sp_place(output.Directory)), sp_action_dir(Dictionary(a), OLD(g_dir(sp_place(output.Directory)))))
