func Dictionary.GetObject(d, key; r, ok)
  props C20
  decreases sp_unread(), 11
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == (HAS(d, key))
  ensures [C20] value: r == sp_dget(d, key)

func Dictionary.GetArray(d, key; r, ok)
  props C20
  decreases sp_unread(), 12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isarray(sp_dget(d, key))
  ensures [C20] value: EQ(r, sp_arrof(sp_dget(d, key)))

func Dictionary.GetDictionary(d, key; r, ok)
  props C20
  decreases sp_unread(), 12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isdict(sp_dget(d, key))
  ensures [C20] value: EQ(r, sp_dictof(sp_dget(d, key)))

func Dictionary.GetBool(d, key; r, ok)
  props C20
  decreases sp_unread(), 12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isbool(sp_dget(d, key))
  ensures [C20] value: r == sp_boolof(sp_dget(d, key))

func Dictionary.GetName(d, key; r, ok)
  props C20
  decreases sp_unread(), 12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isname(sp_dget(d, key))
  ensures [C20] value: r == sp_nameof(sp_dget(d, key))

func Dictionary.GetString(d, key; r, ok)
  props C20
  decreases sp_unread(), 12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isstr(sp_dget(d, key))
  ensures [C20] value: r == sp_strof(sp_dget(d, key))

func Dictionary.GetNumber(d, key; r, ok)
  props C20
  decreases sp_unread(), 12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isnum(sp_dget(d, key))
  ensures [C20] value: r == sp_numof(sp_dget(d, key))

func Dictionary.GetBytes(d, key; r, ok)
  props C20
  decreases sp_unread(), 13
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isstr(sp_dget(d, key))
  ensures [C20] value: EQ(r, []byte(sp_strof(sp_dget(d, key))))

func Dictionary.GetInt(d, key; r, ok)
  props C20
  decreases sp_unread(), 13
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isnum(sp_dget(d, key))
  ensures [C20] value: r == int(sp_numof(sp_dget(d, key)))

func Dictionary.GetInt64(d, key; r, ok)
  props C20
  decreases sp_unread(), 13
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isnum(sp_dget(d, key))
  ensures [C20] value: r == int64(sp_numof(sp_dget(d, key)))

func Dictionary.GetStream(d, key; r, ok)
  props C20
  decreases sp_unread(), 11
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_hasdata(sp_dat(d, key))
  ensures [C20] value: EQ(r, sp_dataof(sp_dat(d, key)))

func Array.GetObject(a, index; r, ok)
  props C20
  decreases sp_unread(), 11
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == (0 <= index && index < len(a))
  ensures [C20] value: r == sp_aget(a, index)

func Array.GetArray(a, index; r, ok)
  props C20
  decreases sp_unread(), 12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isarray(sp_aget(a, index))
  ensures [C20] value: EQ(r, sp_arrof(sp_aget(a, index)))

func Array.GetDictionary(a, index; r, ok)
  props C20
  decreases sp_unread(), 12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isdict(sp_aget(a, index))
  ensures [C20] value: EQ(r, sp_dictof(sp_aget(a, index)))

func Array.GetBool(a, index; r, ok)
  props C20
  decreases sp_unread(), 12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isbool(sp_aget(a, index))
  ensures [C20] value: r == sp_boolof(sp_aget(a, index))

func Array.GetName(a, index; r, ok)
  props C20
  decreases sp_unread(), 12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isname(sp_aget(a, index))
  ensures [C20] value: r == sp_nameof(sp_aget(a, index))

func Array.GetString(a, index; r, ok)
  props C20
  decreases sp_unread(), 12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isstr(sp_aget(a, index))
  ensures [C20] value: r == sp_strof(sp_aget(a, index))

func Array.GetNumber(a, index; r, ok)
  props C20
  decreases sp_unread(), 12
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isnum(sp_aget(a, index))
  ensures [C20] value: r == sp_numof(sp_aget(a, index))

func Array.GetBytes(a, index; r, ok)
  props C20
  decreases sp_unread(), 13
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isstr(sp_aget(a, index))
  ensures [C20] value: EQ(r, []byte(sp_strof(sp_aget(a, index))))

func Array.GetInt(a, index; r, ok)
  props C20
  decreases sp_unread(), 13
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isnum(sp_aget(a, index))
  ensures [C20] value: r == int(sp_numof(sp_aget(a, index)))

func Array.GetInt64(a, index; r, ok)
  props C20
  decreases sp_unread(), 13
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_isnum(sp_aget(a, index))
  ensures [C20] value: r == int64(sp_numof(sp_aget(a, index)))

func Array.GetStream(a, index; r, ok)
  props C20
  decreases sp_unread(), 11
  modifies g_last(EVERY), g_log(EVERY), g_reset(EVERY)
  ensures [C20] found: ok == sp_hasdata(sp_aat(a, index))
  ensures [C20] value: EQ(r, sp_dataof(sp_aat(a, index)))

func Dictionary.GetReference(d, key; r, ok)
  props C20
  ensures [C20] found: ok == sp_isrefobj(sp_dat(d, key))
  ensures [C20] value: IMP(ok, Object(r) == d[key])
