//# formatting (shared by the units of P17)
@raw
/// the formatted text replaces the file, or is printed
pub open spec fn fmt_perm(c: VimwikiConfig, p: Seq<Comp>, inline: bool) -> bool { let t = vimwiki_of(parsed(file_text(p)), c); if inline { may_write(p, t) } else { may_print(t) } }
pub open spec fn fmt_done(c: VimwikiConfig, p: Seq<Comp>, inline: bool) -> bool { let t = vimwiki_of(parsed(file_text(p)), c); if inline { wrote(p, t) } else { printed(t) } }
/// the file has one of the extensions
pub open spec fn ext_in(p: Seq<Comp>, xs: Seq<String>) -> bool { exists|k: int| 0 <= k < xs.len() && ext_is(p, (#[trigger] xs[k])@) }
/// a file given by name, or every file with one of the extensions below a directory
pub open spec fn fmt_path_perm(c: VimwikiConfig, p: Seq<Comp>, xs: Seq<String>, inline: bool) -> bool {
    if a_file(p) { fmt_perm(c, p, inline) } else { forall|i: int| 0 <= i < files(p).len() && ext_in((#[trigger] files(p)[i]).at(), xs) ==> fmt_perm(c, files(p)[i].at(), inline) }
}
pub open spec fn fmt_path_done(c: VimwikiConfig, p: Seq<Comp>, xs: Seq<String>, inline: bool) -> bool {
    if a_file(p) { fmt_done(c, p, inline) } else { forall|i: int| 0 <= i < files(p).len() && ext_in((#[trigger] files(p)[i]).at(), xs) ==> fmt_done(c, files(p)[i].at(), inline) }
}
pub open spec fn fmt_all_perm(cmd: FormatSubcommand, c: VimwikiConfig) -> bool { forall|i: int| 0 <= i < cmd.paths@.len() ==> fmt_path_perm(c, canon((#[trigger] cmd.paths@[i])@), cmd.extensions@, cmd.inline) }
pub open spec fn fmt_all_done(cmd: FormatSubcommand, c: VimwikiConfig) -> bool { forall|i: int| 0 <= i < cmd.paths@.len() ==> fmt_path_done(c, canon((#[trigger] cmd.paths@[i])@), cmd.extensions@, cmd.inline) }
@endraw
