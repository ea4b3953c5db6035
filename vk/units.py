"""Proof units and properties."""
UNITS = []
PROPS = {}

def U(id, prop, harness, entry, fn, **kw):
    d = dict(id=id, prop=prop if isinstance(prop, list) else [prop], harness=harness, entry=entry,
             fn=fn if isinstance(fn, list) else [fn])
    d.update(kw)
    UNITS.append(d)
    return d

def P(id, level, trusted=(), assumptions=(), explanation=""):
    PROPS[id] = dict(level=level, trusted=list(trusted), assumptions=list(assumptions), explanation=explanation)

RS = ["src/util/range_strings.c"]
GL = ["src/util/glob.c"]
PATHL = RS + GL + ["src/util/intmath.c"]

# ---------------- path library
SMALL = "VK_CHAR_OK(c)=((c)=='/'||(c)=='.'||(c)=='a'||(c)==92)"
DOS = ["ROOTFN=vk_dos_root", 'ALPHA="//\\..abC:"']
UWP = {"prep_out.0": 60, "check_guards.0": 6}

# segment-level reduction: token contents and lengths unrestricted, path length unbounded
for nm, ent in [("tok_short", "h_tok_short"), ("tok_long", "h_tok_long")]:
    for nt, thor in ((6, False), (8, True)):
        U("path.%s%d" % (nm, nt), "C04", "norm_tok.c", ent,
          ["evfs_vfs_path_normalize" if "short" in nm else "path_normalize_long", "append_normalized_root", "normalize_root_component"],
          defs=["NT=%d" % nt, "HAVE_LONG"], unwind=nt + 2, kind="bounded", thorough_only=thor,
          bound="at most %d path segments (segment text and path length unrestricted)" % nt,
          assumes=["range_token yields the segments in order (checked in C08)", "range_cat_*_no_nul append or report overflow (checked in C07)"],
          search=["rt.normalize", "rt.normalize_dos", "rt.norm_many"])
for nm, ent, n, fn in [("normalize", "h_normalize", 5, "evfs_vfs_path_normalize"),
                       ("normalize_inplace", "h_normalize_inplace", 5, "evfs_vfs_path_normalize"),
                       ("norm_long", "h_normalize_long", 4, "path_normalize_long")]:
    U("path." + nm, "C04", "path.c", ent, [fn, "range_token", "range_cat_range_no_nul", "range_cat_char_no_nul"],
      link=PATHL, defs=["N=%d" % n, "HAVE_LONG", SMALL], kind="bounded",
      bound="paths of fewer than %d characters over / \\ . a" % n, unwind=n + 3, unwindset=dict(UWP, **{"spec_normalize.2": 14, "spec_normalize.5": 14}),
      native_defs=["UNUSED_"], search=["rt.normalize", "rt.normalize_dos", "rt.norm_many"])
for nm, ent, defs in [("normalize", "h_normalize", ["N=24"]), ("normalize_dos", "h_normalize", ["N=24"] + DOS),
                      ("normalize_inplace", "h_normalize_inplace", ["N=24", "OUTN=30"]), ("norm_idem", "h_norm_idem", ["N=24"]),
                      ("norm_many", "h_norm_many", []), ("norm_many_dos", "h_norm_many", DOS), ("norm_long", "h_normalize_long", ["N=20", "HAVE_LONG"])]:
    U("rt." + nm, "C04", "path.c", ent, "evfs_vfs_path_normalize", link=PATHL, defs=defs, kind="rt", search_secs=3)

for nm, ent in [("absolute", "h_absolute"), ("absolute_overlap", "h_absolute_overlap")]:
    for sfx, rf in (("", []), ("_dos", ["ROOTFN=vk_dos_root"])):
        U("path." + nm + sfx, "C05", "path.c", ent + "_c", ["evfs_vfs_path_absolute", "path_absolute_from_rel_overlap", "evfs_vfs_path_join"],
          link=PATHL, defs=["N=4", "OUTN=11"] + rf, unwind=16, replace={"evfs_vfs_path_normalize": "C_normalize"},
          unwindset=dict(UWP), kind="bounded", no_search=True, bound="path and working directory of fewer than 4 characters, output of at most 11",
          search=["rt.absolute", "rt.absolute_overlap", "rt.absolute_dos", "rt.absolute_overlap_dos"])
    U("rt." + nm, "C05", "path.c", ent, "evfs_vfs_path_absolute", link=PATHL, defs=["N=14", "OUTN=40"], kind="rt", search_secs=3)
    U("rt.%s_dos" % nm, "C05", "path.c", ent, "evfs_vfs_path_absolute", link=PATHL, defs=["N=14", "OUTN=40"] + DOS, kind="rt", search_secs=3)
U("path.join", "C05", "path.c", "h_join", "evfs_vfs_path_join", link=PATHL, defs=["N=6"], unwind=24, kind="bounded",
  bound="head and tail of fewer than 6 characters", search=["rt.join"])
U("rt.join", "C05", "path.c", "h_join", "evfs_vfs_path_join", link=PATHL, defs=["N=20"], kind="rt", search_secs=3)
U("rt.join_long", "C05", "path.c", "h_join", "evfs_vfs_path_join", link=PATHL, defs=["N=180"], kind="rt", search_secs=3)

for nm, ent, fn, n in [("basename", "h_basename", "evfs_path_basename", 9), ("extname", "h_extname", "evfs_path_extname", 9),
                       ("dirname", "h_dirname", "evfs_vfs_path_dirname", 9), ("scan", "h_scan", "evfs_vfs_scan_path", 7)]:
    U("path." + nm, "C06", "path.c", ent, fn, link=PATHL, defs=["N=%d" % n], unwind=n + 2, kind="bounded",
      bound="paths of fewer than %d characters" % n, search=["rt." + nm])
    U("rt." + nm, "C06", "path.c", ent, fn, link=PATHL, defs=["N=30"], kind="rt", search_secs=2)
    U("rt.%s_dos" % nm, "C06", "path.c", ent, fn, link=PATHL, defs=["N=20"] + DOS, kind="rt", search_secs=2)

# ---------------- evfs.c
LIB = ["src/evfs_path.c", "src/util/range_strings.c", "src/util/glob.c", "src/util/intmath.c", "src/util/bsd_string.c"]
NOGLOB = [x for x in LIB if "glob" not in x]
def E(id, prop, entry, fn=None, **kw):
    defs = kw.pop("defs", [])
    if not any(d.startswith("CBUF") for d in defs): defs = defs + ["CBUF=80"]
    if kw.get("kind") == "rt":
        defs.append("REAL_GLOB") if "glob" in "".join(kw.setdefault("link", LIB)) else None
    else:
        kw.setdefault("native_link", NOGLOB)
    return U(id, prop, kw.pop("harness", "evfs_api.c"), entry, fn, defs=defs, **kw)
VFS_API = ["evfs_delete_ex", "evfs_rename_ex", "evfs_make_dir_ex", "evfs_get_cur_dir_ex", "evfs_set_cur_dir_ex", "evfs_vfs_ctrl_ex",
           "evfs_stat_ex", "evfs_existing_file_ex", "evfs_existing_dir_ex", "evfs_path_root_component_ex", "evfs_path_is_absolute_ex",
           "evfs_vfs_path_is_absolute"]
FILE_API = ["evfs_file_ctrl", "evfs_file_read", "evfs_file_write", "evfs_file_truncate", "evfs_file_sync", "evfs_file_size",
            "evfs_file_seek", "evfs_file_tell", "evfs_file_eof", "evfs_dir_read", "evfs_dir_rewind", "evfs_file_close", "evfs_dir_close"]
for nm, fn in [("dispatch", VFS_API), ("exists", ["evfs_existing_file_ex", "evfs_existing_dir_ex", "evfs__vfs_existing_dir"]),
               ("defaults", ["default__* methods", "evfs_register"]), ("open", ["evfs_open_ex", "evfs_vfs_open", "evfs_open_dir_ex", "evfs_vfs_open_dir", "evfs_file_close", "evfs_dir_close"]),
               ("file_ops", FILE_API)]:
    E("evfs." + nm, "C10", "h_" + nm, fn, unwind=8)
    E("rt." + nm, "C10", "h_" + nm, fn, kind="rt", search_secs=1)
E("evfs.puts", "C10", "h_puts", "evfs_file_puts", unwind=12, kind="bounded", bound="strings of fewer than 10 characters")
E("evfs.puts_any", "C10", "h_puts_any", "evfs_file_puts", replace={"strlen": "C_strlen_any"}, soft=True, fallback=["evfs.puts"], no_search=True, assumes=["strlen returns the length of its text"])
E("evfs.dir_find", "C10", "h_dir_find", "evfs_dir_find", unwind=8, kind="bounded", bound="listings of at most 4 entries")
E("rt.puts", "C10", "h_puts", "evfs_file_puts", kind="rt", search_secs=1)
E("rt.printf", "C10", "h_printf", "evfs_file_printf", kind="rt", search_secs=1)
E("rt.dir_find", "C10", "h_dir_find", "evfs_dir_find", kind="rt", search_secs=1, link=NOGLOB, defs=["FN_READS=12"])
E("evfs.registry_step", "C09", "h_registry_step", ["evfs_register", "evfs_unregister", "evfs_find_vfs", "evfs_default_vfs_name"], unwind=8,
  kind="bounded", bound="registry of at most 6 objects (two sharing a name); inductive step, so histories of any length", search=["rt.registry"], defs=["REG_N=6", "REG_STRCMP"])
E("evfs.noinit", "C09", "h_register_noinit", ["evfs_register", "evfs_init"], unwind=7)
E("rt.registry", "C09", "h_registry", ["evfs_register", "evfs_unregister"], kind="rt", search_secs=4)
E("rt.noinit", "C09", "h_register_noinit", ["evfs_register"], kind="rt", search_secs=1)
for own, rd in ((1, 3), (0, 2)):
    E("evfs.copy_%s" % ("own" if own else "tmp"), "C11", "h_copy", "evfs_copy_to_file_ex", harness="evfs_copy.c", unwind=6, kind="bounded",
      bound="at most %d reads of at most %d bytes; any file size to 2 GiB" % (rd, 8 if own else 64),
      defs=["CBUF=8", "VK_POOL=64", "VK_MAXBLK=2", "OWN=%d" % own, "CP_READS=%d" % rd], search=["rt.copy"])
E("rt.copy", "C11", "h_copy", harness="evfs_copy.c", fn="evfs_copy_to_file_ex", kind="rt", search_secs=4, defs=["CP_READS=1000"])
E("evfs.make_path", "C12", "h_make_path", harness="evfs_mkpath.c", fn="evfs_make_path_range_ex", unwind=8, kind="bounded", bound="paths of fewer than 6 characters", link=RS,
  defs=["VK_POOL=8", "MPN=6", "VK_MAXBLK=1"], search=["rt.make_path"])
E("rt.make_path", "C12", "h_make_path", harness="evfs_mkpath.c", fn="evfs_make_path_range_ex", kind="rt", search_secs=4, defs=["MPN=30"])

P("C04", "other", explanation="bounded contract checks; see bounded_stand_ins")
P("C05", "other", explanation="joining proved for any lengths over the contracts of the range functions; making paths absolute checked with bounds, see bounded_stand_ins")
P("C06", "proof", explanation="basename, extname, dirname and scanning proved for paths of any length (loop contracts in the source, libc and tokenizer by contract); the bounded units repeat the check on the unabstracted code and give failing inputs")
P("C09", "other", explanation="bounded contract checks of registry histories; see bounded_stand_ins")
P("C10", "proof", explanation="every dispatching function of the generic API proved against its contract for all arguments and backend results")
P("C11", "other", explanation="bounded contract checks; see bounded_stand_ins")
P("C12", "other", explanation="bounded contract checks; see bounded_stand_ins")

# ---------------- C24 helpers
SE, IM, BS = ["src/util/search.c"], ["src/util/intmath.c"], ["src/util/bsd_string.c"]
def H(id, entry, fn, link, **kw):
    return U(id, "C24", "util24.c", entry, fn, link=SE + IM + BS, **kw)
H("search.exact", "h_search_exact", "search_exact", SE, loops=True, search=["rt.search_exact"])
H("search.nearest", "h_search_nearest", "search_nearest", SE, loops=True, search=["rt.search_nearest"])
for nm, ent, fn in (("exact", "h_search_exact", "search_exact"), ("nearest", "h_search_nearest", "search_nearest"), ("gen", "h_gen_bsearch", "GEN_BSEARCH_FUNC")):
    H("search.%s_small" % nm, ent, fn, SE, unwind=6, kind="bounded", bound="arrays of at most 15 items", defs=["SN_MAX=15"])
H("rt.gen_bsearch", "h_gen_bsearch", "GEN_BSEARCH_FUNC", SE, kind="rt", search_secs=1)
H("search.bounds", "h_search_bound", ["search_nearest_above", "search_nearest_below"], SE, unwind=43, replace={"search_nearest": "C_search_nearest"}, search=["rt.search_bounds"])
H("int.pow2", "h_pow2", ["ceil_pow2", "floor_pow2"], IM)
H("int.ilog10", "h_ilog10", ["ilog10", "base10_digits"], IM)
H("int.log2", "h_log2", "log2_fixed", IM, unwind=33)
for b in (2, 8, 10, 16):
    H("int.ilog_b%d" % b, "h_ilog_b", "ilog_b", IM, unwind=33, defs=["LOGB=%d" % b])
H("byteorder", "h_byte_order", ["get_unaligned_* and set_unaligned_* (18 accessor pairs)"], [], unwind=11)
for n in ("strlcpy", "strxcpy", "strlcat"):
    H("str." + n, "h_" + n, n, BS, unwind=18, kind="bounded", bound="source, destination and size up to 8 bytes")
    H("rt." + n, "h_" + n, n, BS, kind="rt", search_secs=1, defs=["SL=40"])
for nm, ent, fn in [("search_exact", "h_search_exact", "search_exact"), ("search_nearest", "h_search_nearest", "search_nearest"),
                ("search_bounds", "h_search_bound", "search_nearest_above"), ("pow2", "h_pow2", "ceil_pow2"),
                ("ilog10", "h_ilog10", "ilog10"), ("ilog_b", "h_ilog_b", "ilog_b"), ("log2", "h_log2", "log2_fixed"), ("byte_order", "h_byte_order", "get_unaligned")]:
    H("rt." + nm, ent, fn, SE, kind="rt", search_secs=1)
P("C24", "other", explanation="search, integer and byte-order helpers and the string copies proved for all arguments; GEN_BSEARCH_FUNC instances bounded, see bounded_stand_ins")

# ---------------- tar
EV = ["src/evfs.c"] + LIB
DH = ["src/util/dhash.c", "src/util/search.c"]
TARL = EV + DH + ["src/tar_fs.c", "src/tar_rsrc_fs.c", "src/tar_iter.c", "src/tar_iter_rsrc.c"]
def TR(id, prop, entry, fn, **kw):
    return U(id, prop, "tar_rt.c", entry, fn, link=TARL, kind="rt", search_secs=kw.pop("search_secs", 4), **kw)
TR("rt.tar_iter", "C16", "h_tar_iter", ["tar_iter_seek", "tar_iter_next", "tar_rsrc_iter_seek", "tar_rsrc_iter_next"])
TR("rt.tar_damage", "C16", "h_tar_damage", ["tar_iter_seek", "tar_iter_next", "tar_rsrc_iter_seek", "tar_rsrc_iter_next"])
TR("rt.tar_fs", ["C17", "C20", "C26"], "h_tar_fs", "tarfs__*")
TR("rt.tar_rsrc_fs", ["C17", "C20", "C26"], "h_tar_rsrc_fs", "tar_rsrc_fs.c tarfs__*")
TR("rt.tar_fs_damage", "C17", "h_tar_fs_damage", "evfs_register_tar_fs")
TREP = {"dh_lookup": "C_dh_lookup", "evfs_vfs_path_is_absolute": "C_is_absolute", "evfs_vfs_path_absolute": "C_path_absolute"}
for sfx, d in (("", []), ("_rsrc", ["RSRC"])):
    def TP(nm, prop, entry, fn, **kw):
        kw.setdefault("unwind", 6)
        return U("tar%s.%s" % (sfx, nm), prop, "tar.c", entry, fn, link=EV + DH, defs=d, native_link=EV + DH + TARL[-2:],
                 search=["rt.tar%s_fs" % sfx, "rt.tar_iter"], no_search=True, **kw)
    TP("read", ["C17", "C26"], "h_tar_read", ["tarfs__file_read", "evfs_file_read"], replace={"memcpy": "C_memcpy"} if sfx else {},
       assumes=["memcpy copies the bytes it is given (libc)"] if sfx else [])
    TP("pos", ["C17", "C26"], "h_tar_pos", ["tarfs__file_seek", "tarfs__file_tell", "tarfs__file_size", "tarfs__file_eof", "evfs__absolute_offset"])
    TP("readonly", "C20", "h_tar_readonly", ["tarfs__file_write", "tarfs__file_truncate", "tarfs__file_ctrl"])
    TP("open", ["C17", "C20"], "h_tar_open", ["tarfs__open", "tarfs__stat", "tarfs__lookup_path", "make_absolute_path", "tarfs__file_close"], replace=TREP)
    def TI(nm, entry, fn, **kw):
        return U("tar%s.%s" % (sfx, nm), "C16", "tar_it.c", entry, fn, link=EV, defs=d, search=["rt.tar_iter", "rt.tar_damage"], no_search=True, **kw)
    TI("iter", "h_tar_it", ["tar%s_iter_seek" % sfx, "tar%s_iter_next" % sfx, "tar__get_header"] + ([] if sfx else ["tar__get_size"]), unwind=16,
       replace=dict({"tar__valid_header": "C_valid_header"}, **({"tar__get_size": "C_get_size"} if sfx else {})))
    TI("valid", "h_tar_valid", "tar__valid_header", unwind=502, solver="z3", unwindset={"__isoc23_strtol.0": 10, "__isoc23_strtol.1": 10})
    if sfx:
        TI("size", "h_tar_size", "tar__get_size", unwind=16)
P("C16", "proof", explanation="iterator steps, size and checksum validation proved; whole archives also evaluated against a reference model")
P("C17", "other", explanation="member reads, positioning, open and stat proved against their contracts; index construction evaluated against a reference model on generated archives")

# ---------------- romfs
ROML = EV + DH
for nm, ent, props in (("romfs", "h_romfs", ["C18", "C19", "C20", "C26"]), ("romfs_damage", "h_romfs_damage", ["C18", "C19"])):
    for sfx, d in (("", []), ("_slow", ["SLOW"])):
        U("rt." + nm + sfx, props, "romfs_rt.c", ent, ["romfs_init", "romfs__*"], link=ROML, defs=d, kind="rt", search_secs=4)
RSEARCH = ["rt.romfs", "rt.romfs_slow", "rt.romfs_damage"]
def RO(nm, prop, entry, fn, **kw):
    kw.setdefault("unwind", 50)
    return U("romfs." + nm, prop, "romfs.c", entry, fn, link=EV + DH, search=RSEARCH, no_search=True, **kw)
RO("header", ["C18", "C19"], "h_header", ["romfs_read_file_header", "file_header_len"])
RO("follow", "C18", "h_follow", "romfs__follow_link", replace={"romfs_read_file_header": "C_read_header"}, unwind=6)
RO("read", ["C19", "C26"], "h_rom_read", ["romfs__file_read", "evfs_file_read"], unwind=6)
RO("pos", ["C19", "C20", "C26"], "h_rom_pos", ["romfs__file_seek", "romfs__file_tell", "romfs__file_size", "romfs__file_eof", "romfs__file_write", "romfs__file_truncate", "evfs__absolute_offset"], unwind=6)
RO("open", ["C18", "C19", "C20"], "h_rom_open", ["romfs__open", "romfs__stat", "romfs__open_dir", "romfs__lookup_path", "make_absolute_path"], unwind=6,
   replace={"evfs_vfs_path_is_absolute": "C_is_absolute", "evfs_vfs_path_absolute": "C_path_absolute"})
RO("dir_read", "C19", "h_dir_read", ["romfs__dir_read", "romfs__dir_rewind"], replace={"romfs_read_file_header": "C_read_header"}, unwind=6)
RO("rsrc_read", ["C18", "C19"], "h_rsrc_read", "romfs_read_rsrc", replace={"memcpy": "C_memcpy"}, unwind=6, assumes=["memcpy copies the bytes it is given (libc)"])
P("C18", "other", explanation="header validation, link following, open and stat proved; whole lookups evaluated against a reference model on generated and damaged images")
P("C19", "proof", explanation="reads, positioning and listing steps proved against their contracts; whole sessions also evaluated against a reference model")
P("C20", "other", explanation="tar and romfs refusals proved for all flags and arguments; stdio read-only mode proved in stdio units")

# ---------------- stdio
def ST(nm, prop, entry, fn, **kw):
    kw.setdefault("unwind", 14)
    return U("stdio." + nm, prop, "stdio.c", entry, fn, link=EV + DH, assumes=["host functions behave as the C and POSIX standards say (model in harness/stdio.c)"], **kw)
ST("open", ["C21", "C20"], "h_st_open", ["stdio__open", "translate_error"])
ST("rw", ["C21", "C20"], "h_st_rw", ["stdio__file_read", "stdio__file_write"])
ST("pos", ["C21", "C26"], "h_st_pos", ["stdio__file_seek", "stdio__file_tell", "stdio__file_size", "stdio__file_eof", "evfs__absolute_offset"])
ST("misc", ["C21", "C20"], "h_st_misc", ["stdio__file_truncate", "stdio__file_sync", "stdio__file_close"])
ST("path", ["C21", "C20"], "h_st_path", ["stdio__delete", "stdio__rename", "stdio__make_dir", "stdio__stat", "stdio__set_cur_dir", "stdio__get_cur_dir", "stdio__vfs_ctrl"])
ST("dir", "C21", "h_st_dir", ["stdio__open_dir", "stdio__dir_read", "stdio__dir_rewind", "stdio__dir_close"])
P("C21", "proof", explanation="every stdio method proved for all flags, sizes, offsets and host results over a model of the host functions")
U("rotate.pos", "C26", "rotate.c", "h_rot_pos", ["rotate__file_seek", "rotate__file_tell", "rotate__file_size", "rotate__file_eof", "evfs__absolute_offset"], link=EV + DH, unwind=14)
P("C26", "proof", explanation="evfs__absolute_offset and each backend seek proved for all offsets, origins, positions and sizes")

# ---------------- trace shim
TRC = {"evfs__vmprintf": "C_vmprintf", "evfs_path_basename": "C_basename", "strlcpy": "C_strlcpy"}
TRN = ["rt.trace_file", "rt.trace_dir", "rt.trace_vfs", "rt.trace_open"]
for nm, fn in [("file", ["trace__file_ctrl", "trace__file_close", "trace__file_read", "trace__file_write", "trace__file_truncate", "trace__file_sync", "trace__file_size", "trace__file_seek", "trace__file_tell", "trace__file_eof", "trace_printf", "trace_print_result"]),
               ("dir", ["trace__dir_close", "trace__dir_read", "trace__dir_rewind"]),
               ("vfs", ["trace__stat", "trace__delete", "trace__rename", "trace__make_dir", "trace__get_cur_dir", "trace__set_cur_dir", "trace__vfs_ctrl", "trace__path_root_component"]),
               ("open", ["trace__open"]), ("opendir", ["trace__open_dir"]), ("register", ["evfs_register_trace"])]:
    U("trace." + nm, "C02", "trace.c", "h_tr_" + nm.replace("opendir", "open"), fn, link=LIB, unwind=12, defs=["FILE_OPEN=1"] if nm == "open" else [], no_search=True, search=TRN,
      replace=dict(TRC, **({"evfs_register": "C_register", "evfs_find_vfs": "C_find"} if nm == "register" else {})))
    if nm not in ("register", "opendir"):
        U("rt.trace_" + nm, "C02", "trace.c", "h_tr_" + nm, fn, link=LIB, kind="rt", search_secs=1, defs=["PLEN=200"])
P("C02", "proof", explanation="every shim method proved to forward once with the same arguments and result")

# ---------------- jail shim
JN = ["rt.jail_hist", "rt.jail_file", "rt.jail_dir"]
UJ = {"unjail_path": "C_unjail"}
for nm, prop, ent, fn, kw in [
    ("file", "C03", "h_j_file", ["jail__file_ctrl", "jail__file_close", "jail__file_read", "jail__file_write", "jail__file_truncate", "jail__file_sync", "jail__file_size", "jail__file_seek", "jail__file_tell", "jail__file_eof"], {}),
    ("dir", "C03", "h_j_dir", ["jail__dir_close", "jail__dir_read", "jail__dir_rewind"], {}),
    ("vfs", ["C01", "C03"], "h_j_vfs", ["jail__stat", "jail__delete", "jail__rename", "jail__make_dir", "jail__vfs_ctrl", "jail__path_root_component"], dict(replace=UJ)),
    ("open", ["C01", "C03"], "h_j_open", ["jail__open"], dict(replace=UJ, defs=["FILE_OPEN=1"])),
    ("opendir", ["C01", "C03"], "h_j_open", ["jail__open_dir"], dict(replace=UJ)),
    ("unjail", ["C01", "C03"], "h_j_unjail", ["unjail_path", "range_cat_str", "range_cat_char", "range_strlen"], dict(replace={"evfs_vfs_path_absolute": "C_absolute"}, unwind=26, kind="bounded", bound="jail root of fewer than 6 characters, output range of at most 20 bytes (path text unrestricted)")),
    ("unjail_any", ["C01", "C03"], "h_j_unjail_any", ["unjail_path"], dict(replace={"evfs_vfs_path_absolute": "C_abs_any", "range_cat_str": "C_cat_str", "range_cat_char": "C_cat_char", "range_strlen": "C_range_strlen", "memmove": "C_memmove"}, soft=True, fallback=["jail.unjail"],
        assumes=["range_cat_str, range_cat_char, range_strlen (decided in C07) and evfs_vfs_path_absolute (C05) keep their contracts", "sizes up to 65536"])),
    ("cwd", ["C01", "C03"], "h_j_cwd", ["jail__set_cur_dir", "jail__get_cur_dir"], dict(replace={"evfs_vfs_path_absolute": "C_abs_cwd", "evfs__vfs_existing_dir": "C_existing"})),
    ("register", ["C01", "C03"], "h_j_register", ["evfs_register_jail"], dict(defs=["ABSOK=1", "VK_POOL=900"], replace={"evfs_vfs_path_absolute": "C_abs_reg", "evfs_register": "C_register", "evfs_find_vfs": "C_find"})),
    ("register_err", ["C01", "C03"], "h_j_register", ["evfs_register_jail"], dict(replace={"evfs_vfs_path_absolute": "C_abs_reg", "evfs_register": "C_register", "evfs_find_vfs": "C_find"}))]:
    kw.setdefault("unwind", 12)
    U("jail." + nm, prop, "jail.c", ent, fn, link=LIB, no_search=True, search=JN, **kw)
U("rt.jail_hist", ["C01", "C03"], "jail.c", "h_jail_hist", ["jail__*", "evfs_vfs_path_absolute"], link=LIB, kind="rt", search_secs=8)
U("rt.jail_file", "C03", "jail.c", "h_j_file", "jail__file_*", link=LIB, kind="rt", search_secs=1)
U("rt.jail_dir", "C03", "jail.c", "h_j_dir", "jail__dir_*", link=LIB, kind="rt", search_secs=1)
P("C01", "other", explanation="forwarding and conversion proved over the path contracts; whole histories evaluated against an independent path model")
P("C03", "other", explanation="forwarding and conversion proved over the path contracts; whole histories evaluated against an independent path model")

# ---------------- string ranges
def SR(nm, prop, fn, n=6, m=7, ent=None, bnd=None, **kw):
    kw.setdefault("unwind", 16)
    U("str." + nm, prop, "strings.c", "h_" + (ent or nm), fn, link=["src/util/intmath.c"], defs=["N=%d" % n, "M=%d" % m], kind="bounded",
      bound=(bnd or "strings of fewer than %d characters" % n) + ", ranges of at most %d bytes" % m, search=["rt.str_" + nm], **kw)
    U("rt.str_" + nm, prop, "strings.c", "h_" + (ent or nm), fn, link=["src/util/intmath.c"], defs=["N=40", "M=44"], kind="rt", search_secs=1)
for nm, fn in [("cat_str", "range_cat_str"), ("cat_str_nn", "range_cat_str_no_nul"), ("cat_range", "range_cat_range"), ("cat_range_nn", "range_cat_range_no_nul"),
               ("cat_char", ["range_cat_char", "range_cat_char_no_nul"]), ("copy_str", "range_copy_str"), ("cat_fmt", ["range_cat_fmt", "range_cat_vfmt"]),
               ("pad", "range_pad_right"), ("trim", ["range_ltrim", "range_rtrim", "range_trim"])]:
    SR(nm, "C07", fn)
SR("term", ["C07", "C08"], ["range_terminate", "range_set_len", "range_strlen", "range_puts", "range_fputs"])
SR("cat_uint", "C07", "range_cat_uint", m=8, unwind=16, bnd="numbers of at most 5 digits")
SR("cat_int", "C07", "range_cat_int", m=8, unwind=16, bnd="numbers of at most 5 digits")
for nm, fn in [("cmp", ["range_eq", "range_eq_range"]), ("is_int", "range_is_int"), ("token_null", ["range_token", "range_token_limit"])]:
    SR(nm, "C08", fn)
SR("token", "C08", "range_token", n=4, unwind=7)
SR("token_limit", "C08", "range_token_limit", n=4, unwind=7)
U("rt.str_fixed", "C07", "strings.c", "h_fixed", ["range_cat_fixed_padded", "range_cat_ufixed_padded"], link=["src/util/intmath.c"], defs=["M=26"], kind="rt", search_secs=2)
P("C07", "other", explanation="every range function except the decimal digits of range_cat_uint (bounded) and fixed-point output (searched only) proved for ranges and texts of any size with loop contracts in the source; the bounded units repeat the check on the unabstracted code and give failing inputs")
P("C08", "proof", explanation="tokenising, comparing, measuring and printing ranges proved for texts, delimiter sets and limits of any size with loop contracts in the source (libc by contract); the bounded units repeat the check on the unabstracted code and give failing inputs")

# the same contracts without bounds: loop contracts in the source, one arbitrary index stands for all
LIBC = ["strlen, strnlen, strspn, strcspn, strchr, vsnprintf, isspace and isdigit behave as the C standard says", "sizes up to 1 GiB (lengths are ints)"]
for nm, ent, prop, fn, kw in [
    ("cat_str", "h_cat_str", "C07", "range_cat_str", {}), ("cat_str_nn", "h_cat_str_nn", "C07", "range_cat_str_no_nul", {}),
    ("cat_range", "h_cat_range", "C07", "range_cat_range", {}), ("cat_range_nn", "h_cat_range_nn", "C07", "range_cat_range_no_nul", {}),
    ("copy_str", "h_copy_str", "C07", "range_copy_str", {}), ("cat_char", "h_cat_char", "C07", ["range_cat_char", "range_cat_char_no_nul"], {}),
    ("cat_fmt", "h_cat_fmt", "C07", ["range_cat_fmt", "range_cat_vfmt"], {}), ("pad", "h_pad", "C07", "range_pad_right", dict(replace={"range_strlen": "C_rlen"}, defs=["MAXSZ=0x10000u"])),
    ("ltrim", "h_ltrim", "C07", "range_ltrim", dict(fb="trim")), ("rtrim", "h_rtrim", "C07", "range_rtrim", dict(fb="trim")), ("trim", "h_trim", "C07", "range_trim", dict(replace={"range_ltrim": "C_ltrim", "range_rtrim": "C_rtrim"})),
    ("terminate", "h_terminate", "C07", "range_terminate", dict(fb="term")), ("set_len", "h_set_len", "C07", "range_set_len", dict(fb="term")), ("strlen", "h_strlen", ["C07", "C08"], "range_strlen", dict(fb="term")), ("puts", "h_puts", ["C07", "C08"], ["range_puts", "range_fputs"], dict(fb="term")),
    ("cat_int", "h_cat_int", "C07", "range_cat_int", dict(replace={"range_cat_uint": "C_cat_mag", "range_cat_char": "C_cat_sign"})),
    ("is_int", "h_is_int", "C08", "range_is_int", {}), ("eq", "h_eq", "C08", "range_eq", dict(fb="cmp")), ("eq_range", "h_eq_range", "C08", "range_eq_range", dict(fb="cmp")),
    ("token", "h_token", "C08", "range_token", {}), ("token_limit", "h_token_limit", "C08", "range_token_limit", {})]:
    fb = kw.pop("fb", nm)
    U("ustr." + nm, prop, "strings_u.c", ent, fn, loops="plain", soft=True, fallback=["str." + fb], search=["rt.str_" + fb], no_search=True, assumes=LIBC, **kw)

ULIB = ["strlen behaves as the C standard says", "sizes up to 1 GiB"]
for n, kw in (("strlcpy", {}), ("strxcpy", {}), ("strlcat", dict(replace={"strlcpy": "C_strlcpy"}))):
    U("ubsd." + n, "C24", "bsd_u.c", "h_" + n, n, loops="plain", soft=True, fallback=["str." + n], search=["rt.str_" + n], no_search=True, assumes=ULIB, **kw)
for n, fn, kw in (("basename", "evfs_path_basename", {}), ("extname", "evfs_path_extname", dict(replace={"evfs_path_basename": "C_basename"})), ("dirname", "evfs_vfs_path_dirname", {})):
    U("upath." + n, "C06", "split_u.c", "h_" + n, fn, loops="plain", soft=True, fallback=["path." + n], search=["rt." + n], no_search=True,
      assumes=ULIB + ["char_match tests for '/' and '\\\\', the members of EVFS_PATH_SEPS"], **kw)

U("upath.scan", "C06", "split_u.c", "h_scan", "evfs_vfs_scan_path", replace={"range_token": "C_token"}, soft=True, fallback=["path.scan"], search=["rt.scan"], no_search=True,
  assumes=["range_token keeps its contract (decided in C08)"])
U("upath.join", "C05", "split_u.c", "h_join", "evfs_vfs_path_join", replace={"range_strlen": "C_jlen", "range_cat_range": "C_jcat", "range_cat_char": "C_jchar", "range_terminate": "C_jterm"}, soft=True,
  fallback=["path.join"], search=["rt.join"], no_search=True, assumes=["range_strlen, range_cat_range, range_cat_char and range_terminate keep their contracts (decided in C07)", "sizes up to 1 GiB", "the root component is a prefix of the head's text"])
# ---------------- hash map
DHL = ["src/util/search.c"]
DHB = dict(link=DHL, unwind=7, kind="bounded", bound="tables of 5 buckets", no_search=True, search=["rt.dhash"])
DHR = {"next_bucket": "C_next", "dh__get_entry_unsafe": "C_get_entry", "dh__hash_int": "C_hash_int"}
for h in range(5):
    U("dhash.lookup_%d" % h, "C22", "dhash.c", "h_lookup", ["dh_lookup", "dh_lookup_in_place", "dh__find_bucket"], replace=dict(DHR, dh__initial_probe="C_home"), defs=["SEP=1", "HOME=%d" % h], **DHB)
    U("dhash.insert_%d" % h, "C22", "dhash.c", "h_insert", ["dh_insert", "dh__insert", "dh__insert_ex"], replace=dict(DHR, dh__initial_probe="C_home", dh__grow="C_grow"), defs=["SEP=1", "HOME=%d" % h], **DHB)
    U("dhash.remove_%d" % h, "C22", "dhash.c", "h_remove", "dh_remove", replace=dict(DHR, dh__find_bucket="C_find"), defs=["SEP=1", "POS=%d" % h], **DHB)
U("dhash.remove_none", "C22", "dhash.c", "h_remove", "dh_remove", replace=dict(DHR, dh__find_bucket="C_find"), defs=["SEP=1", "POS=-1"], **DHB)
U("dhash.iter", "C22", "dhash.c", "h_iter", ["dh_iter_init", "dh_iter_next", "dh_foreach", "dh_num_items"], replace={"dh__get_entry_unsafe": "C_get_entry"}, defs=["SEP=1"], **DHB)
U("dhash.free", "C22", "dhash.c", "h_free", "dh_free", replace={"dh__get_entry_unsafe": "C_get_entry"}, defs=["SEP=1"], **DHB)
U("dhash.grow", "C22", "dhash.c", "h_grow", ["dh__grow", "dh__init", "dh__alloc_buckets"], replace={"dh__insert_ex": "C_insert_ex"}, **dict(DHB, unwind=12))
DHP = dict(link=DHL, no_search=True, search=["rt.dhash"])
U("dhash.free_heap", "C22", "dhash.c", "h_free_heap", "dh_free", unwind=3, **DHP)
U("dhash.insert_limit", "C22", "dhash.c", "h_insert_limit", "dh_insert", replace={"dh__grow": "C_grow2", "dh__insert": "C_insert2"}, **DHP)
U("dhash.reserve", "C22", "dhash.c", "h_reserve", "dh_reserve_capacity", replace={"dh__grow": "C_grow2"}, **DHP)
U("dhash.fresh", "C22", "dhash.c", "h_fresh", "dh__alloc_buckets", unwind=14, **DHP)
U("dhash.address", "C22", "dhash.c", "h_address", "dh__get_entry_unsafe", **DHP)
U("dhash.modulus", "C22", "dhash.c", "h_modulus", ["next_bucket", "get_prime"], unwind=54, **DHP)
U("dhash.probe", "C22", "dhash.c", "h_probe", "dh__initial_probe", solver="z3", unwind=54, **DHP)
for ex in (0, 1):
    U("dhash.init%d" % ex, "C22", "dhash.c", "h_init", ["dh_init", "dh__init", "dh__alloc_buckets", "search_nearest_above", "search_nearest_below"], unwind=10, kind="bounded", bound="up to 30 initial buckets or 1024 bytes of storage", defs=["EXT=%d" % ex], **DHP)
U("rt.dhash", "C22", "dhash.c", "h_hist", "dh_*", link=DHL, kind="rt", search_secs=8)
P("C22", "bounded", explanation="each operation proved to keep the representation invariant and act on the map as specified for every table of five buckets; long histories on real sizes evaluated")

# ---------------- glob
GLU = {"char_match.0": 4, "parse_range_def.0": 3, "parse_range_def.1": 6, "parse_range_def.2": 9, "strlen.0": 7, "strcspn.0": 7, "strcspn.1": 7}
U("glob.match", "C23", "glob.c", "h_glob", ["glob_match", "char_match", "is_glob"], unwind=13, unwindset=GLU, kind="bounded", bound="patterns without sets of at most 3 characters, names of at most 3", defs=["NP=3", "NS=3", "SETS=0", "SEP1=1"], search=["rt.glob", "rt.glob_short"])
U("glob.match_set", "C23", "glob.c", "h_glob", ["glob_match", "char_match", "parse_range_def"], unwind=8, unwindset=GLU, kind="bounded", bound="patterns of at most 5 characters, names of at most 1", defs=["NP=5", "NS=1", "SETS=1", "SEP1=2"], search=["rt.glob", "rt.glob_short"])
U("glob.set", "C23", "glob.c", "h_glob_set", "parse_range_def", unwind=9, unwindset={"parse_range_def.0": 6}, kind="bounded", bound="sets of at most 5 characters, ranges of at most 5 characters", search=["rt.glob"])
U("glob.null", "C23", "glob.c", "h_glob_null", "glob_match", unwind=4)
U("rt.glob", "C23", "glob.c", "h_glob", "glob_match", kind="rt", search_secs=5, defs=["NP=14", "NS=12", "SETS=1"])
U("rt.glob_short", "C23", "glob.c", "h_glob", "glob_match", kind="rt", search_secs=5, defs=["NP=6", "NS=5", "SETS=1"])
P("C23", "bounded", explanation="decided for every pattern and name up to the stated size against the recursive definition")

# ---------------- option parser
U("getopt.step", "C27", "getopt.c", "h_getopt", ["getopt_long_r", "permute_args", "permute_right"], unwind=9, kind="bounded", bound="at most 2 arguments of at most 3 characters from any parser position, fixed option tables", defs=["NA=2", "NL=3"], search=["rt.getopt", "rt.getopt_step"])
U("getopt.null", "C27", "getopt.c", "h_getopt_null", "getopt_long_r", unwind=9, defs=["NA=2", "NL=3"])
U("rt.getopt", "C27", "getopt.c", "h_getopt_run", ["getopt_long_r", "getopt_r"], link=["src/util/range_strings.c", "src/util/intmath.c"], kind="rt", search_secs=5, defs=["NA=6", "NL=5"])
U("rt.getopt_step", "C27", "getopt.c", "h_getopt", ["getopt_long_r"], link=["src/util/range_strings.c", "src/util/intmath.c"], kind="rt", search_secs=2, defs=["NA=4", "NL=5"])
P("C27", "bounded", explanation="one step decided for every small argument list and parser position; whole command lines evaluated against the model")

# ---------------- locks
LKM = [(1, "registry", ["find", "register", "register_new", "unregister", "unregister_all", "default", "get", "init"]), (2, "tar", ["file", "vfs", "register"]), (3, "tar_rsrc", ["file", "vfs", "register"]),
       (4, "romfs", ["file", "vfs", "dir", "register"]), (5, "jail", ["file", "vfs", "register"]), (6, "rotate", ["rotate", "ropen"]), (7, "pthread", ["prim"]), (8, "c11", ["prim"])]
LKF = {1: ["evfs_find_vfs", "evfs_register", "evfs_unregister", "evfs_unregister_all", "evfs_init"], 2: "src/tar_fs.c", 3: "src/tar_rsrc_fs.c", 4: "src/romfs_fs.c", 5: "src/shim_jail.c",
       6: ["chunk_exists", "evict_chunk", "activate_chunk", "append_new_chunk", "open_rotate_container"], 7: "src/evfs_pthread.c", 8: "src/evfs_c11_thread.c"}
for m, nm, ents in LKM:
    for i, e in enumerate(ents):
        d = ["MOD=%d" % m, "USE_C11_THREADS" if m == 8 else "USE_PTHREADS"]; id = "lock.%s_%s" % (nm, e)
        if m == 1: d += ["OPLO=%d" % i, "OPHI=%d" % i]
        ent = "h_lk_registry" if m == 1 else "h_lk_" + e
        kw = dict(kind="bounded", bound="at most %d registered filesystems" % (2 if i > 3 else 3)) if m == 1 else {}
        rep = {"tarfs__build_index": "C_build"} if m in (2, 3) and e == "register" else {"is_rotate_file": "C_is_rotate"} if e == "ropen" else {"evfs_unregister": "C_unreg"} if e == "unregister_all" else {}
        if id != "lock.jail_register":   # beyond the verifier's time limit: evaluated only
            U(id, "C25", "lock.c", ent, LKF[m], link=LIB if m == 1 else [], defs=d, unwind=6, replace=rep, search=["rt." + id], no_search=True, **kw)
        U("rt." + id, "C25", "lock.c", ent, LKF[m], link=LIB if m == 1 else [], defs=d, kind="rt", search_secs=1)
P("C25", "other", explanation="every function of the registry, the tar and romfs filesystems, the jail shim and the thread wrappers that may take a lock proved balanced for every outcome of what it calls; registry units bounded; jail registration evaluated only")
