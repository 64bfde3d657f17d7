//# what the command line tool writes when it formats files (unit of P17)
@slices
@include std.rs
@include path.rs
@include cli.rs
@fnhead broadcast use {dirlem::b_dir, pathax::ax_deref, pathax::ax_cow_ref, pathax::ax_path, pathax::ax_pathbuf, pathax::ax_str_path, pathax::ax_cow_b, pathax2::ax_os, pathax2::ax_str, pathax2::ax_comp, cliax::ax_str_eq1, cliax::ax_str_eq2, cliax::ax_dflt, cliax::ax_utf8, cliax::ax_utf8b};
@include wikitypes.spec
@include cliwiki.spec
@source vimwiki-cli/src/opt.rs
@type IndexOrName
@type CommonOpt
@type FormatSubcommand
@raw
type Cv = HtmlConfig;
pub uninterp spec fn cv(c: HtmlConfig) -> Cv;
@endraw
@include clifmt0.spec
@source vimwiki-cli/src/subcommand/format.rs
@fn process_file
    requires fmt_perm(config, input_path@, inplace)
    ensures ret is Ok ==> fmt_done(config, input_path@, inplace),
@fn format desugar
    requires fmt_all_perm(cmd, config)
    ensures ret is Ok ==> fmt_all_done(cmd, config),
@@closure 0
    ensures r__ == ok_of()(e)
@@closure 1
    ensures r__ == file_pred()(*e)
@@head
    let ghost ps = cmd.paths@;
    let ghost xs = cmd.extensions@;
    let ghost inl = cmd.inline;
    let ghost c0 = config;
    let ghost cmd0 = cmd;
@@loop 0
    invariant
        it__0@.len() <= ps.len(), it__0@ == ps.skip(ps.len() - it__0@.len()),
        forall|i: int| 0 <= i < ps.len() - it__0@.len() ==> fmt_path_done(config, canon((#[trigger] ps[i])@), xs, inl),
    decreases it__0@.len(),
@@loop 1
    invariant
        it__1@.len() <= files(path@).len(), it__1@ == files(path@).skip(files(path@).len() - it__1@.len()),
        forall|i: int| 0 <= i < files(path@).len() - it__1@.len() && ext_in((#[trigger] files(path@)[i]).at(), xs) ==> fmt_done(config, files(path@)[i].at(), inl),
    decreases it__1@.len(),
