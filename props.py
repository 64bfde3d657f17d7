"""What each check runs."""
PARSE_ASSUME = [
    'nom combinators, memchr and std/vstd functions behave as the contracts in specs/nom.rs and specs/nom2.rs state (assumed, not verified)',
    'inputs are shorter than 2^63 bytes and the nesting depth counter stays below 65535',
    'stack depth and running time are not modelled (partial correctness)',
]
UNITS = {
    'parse_safe': {'shards': 2},
    'parse_text': {'shards': 2, 'base': 'parse_safe'},
    'span': {}, 'region': {}, 'anchor': {}, 'linkdata': {},
    'lists': {}, 'tables': {}, 'paths': {}, 'wikis': {},
    'html': {'shards': 2},
    'htmlx': {'shards': 2},
    'vimwiki': {},
    'copies': {},
    'page': {},
    'cli': {'mir': 'cli'}, 'clifmt': {'mir': 'cli'},
    'parse_regions': {'shards': 2, 'base': 'parse_safe'},
}
PARSE_NOTE = ('Deductive: every function listed in the evidence is verified against its contract for all inputs by Verus/Z3; functions still assumed by contract are listed in '
              'trusted_base (nom combinators, memchr, std). Every function of the page parser is under contract.')
PROPS = {
    'P01': dict(units=['parse_safe', 'anchor'], level='proof', level_note=PARSE_NOTE, assumptions=PARSE_ASSUME,
                bounded_covers='all parsers, all token sequences of length 2, all short character sequences, random documents',
                explanation='Preconditions (offset bounds, no overflow, UTF-8 validity of every unchecked conversion, no failing unwrap) of each parser function, discharged per function; the caller is checked against the callee contract. Anchors are proved to encode to a valid URI reference, which the diary links unwrap.'),
    'P02': dict(units=['parse_text'], level='proof', level_note=PARSE_NOTE, assumptions=PARSE_ASSUME,
                bounded_covers='text pieces of whole parsed pages compared with the source stretch of their element',
                explanation='Postcondition of each parser: every text in the result is a contiguous part of the window it was read from.'),
    'P03': dict(units=['parse_regions'], level='proof', level_note=PARSE_NOTE, assumptions=PARSE_ASSUME,
                bounded_covers='nesting, order and character boundaries of all regions of whole parsed pages',
                explanation='Postcondition of each parser: regions in the result lie in the consumed window, nest in their parent, and siblings are ordered.'),
    'P04': dict(units=['span'], level='proof', ms=6000, bounded_covers='every stretch of all texts of up to 4 symbols, random texts of up to 60 characters',
                level_note='All position functions of the span type are verified for all inputs; newline search, iterator adapters over it and code point counting are assumed contracts on memchr, std and bytecount.',
                explanation='Functional contracts: line, column, end position, blank test, forward and reverse iteration, trimming and slicing of a span.',
                assumptions=['memchr, bytecount and iterator adapters behave as their assumed contracts state', 'inputs shorter than 2^62 bytes']),
    'P05': dict(units=['region'], level='proof', ms=4000, bounded_covers='corner values of usize in all combinations, random values',
                level_note='All functions of the region type and the located wrapper are verified with machine arithmetic (no mathematical-integer idealisation).',
                explanation='Functional contracts: the set of positions a region covers equals the range it was made from; wrappers keep the region.',
                assumptions=['RangeInclusive::into_inner returns start and end']),
    'P06': dict(units=['lists'], level='proof', ms=4000, bounded_covers='positions 0..5000 and corner positions for every item type and suffix; random trees of nested items for todo progress',
                level_note='Prefixes and todo state are verified for all positions below usize::MAX; the progress of an item with sublists (a float mean over nested folds) is only covered by the bounded run.',
                explanation='Functional contracts: prefix of an item = decimal, letters (bijective base 26) or roman numeral of its position plus suffix, with injectivity lemmas; todo predicates equal the stored status.',
                assumptions=['numerals::roman formats 1..=1000 as standard roman numerals', 'std formatting of integers and strings', 'positions below usize::MAX']),
    'P07': dict(units=['tables'], level='proof', ms=8000, bounded_covers='every table of up to 4 cells over content, both spans and alignment, every 2x3/3x2 table over three kinds, every 3x3 table with holes; random tables up to 5x5 and, more rarely, 13x13; positions paired by zip_with_position',
                level_note='Every table function and iterator step is verified for all tables; iterator adapters of std (any, find_map, enumerate) are verified re-implementations over the verified step functions.',
                explanation='Functional contracts over the map from position to cell: counts, first-cell search, each iterator step (with and without its position), spans, column alignment, divider and header/body split.',
                assumptions=['std HashMap behaves as a finite map', 'cell positions stay two below the largest address', 'ZipCellPos hands over what next_with_pos returns (bounded run)']),
    'P08': dict(units=['htmlx'], level='proof', ms=5000, bounded_covers='pages of generated documents and trees with arbitrary text in every position, all settings of comments, newlines, table of contents header, server-side highlighting: the whole HTML text compared with an independent writer',
                level_note='Every Output<HtmlFormatter> implementation, the state of the formatter (headings, ids, title, date, template) and the conversion to a string are verified for all trees, settings and starting states: the exact text each element appends and the state it leaves, one equation per element over the outputs of its parts. Where a link leads is P11, the cells a table yields are P07; both are taken over as contracts.',
                explanation='Contract of every writer: what it appends and how the formatter state changes equals a specification function of the element, recursive over its children, with errors propagated.',
                assumptions=['voca_rs::escape_html replaces the six markup characters one by one', 'core::fmt appends the pieces of a write in order', 'str::to_lowercase, str::trim and the Display text of URIs, dates and links are named, not defined; std HashMap behaves as a finite map', 'line groups of blockquotes, is_blank, is_ordered and the row/cell iterators of tables behave as stated in specs/htmlx.spec', 'header levels and id counts stay below usize::MAX', 'syntect is a function of its inputs']),
    'P09': dict(units=['html'], level='proof', ms=5000, bounded_covers='trees built from seeds with arbitrary text in every position, all settings of comments, newlines, canonical and ugly links, server-side highlighting; converted documents of token pairs and random documents',
                level_note='Every Output<HtmlFormatter> implementation, the formatter and the conversion to a string are verified for all trees: the scanner state after the output equals the state before it. Escaping, syntect markup, the text of URIs and the order of pieces written by core::fmt are assumed contracts.',
                explanation='Contract of every writer: a tag scanner run over what it appended ends where it began (no markup from document text, every tag closed in order); exact escaped content for texts, code, math and keywords.',
                assumptions=['voca_rs::escape_html replaces the six markup characters one by one', 'markup produced by syntect is closed', 'URIs hold none of < > and the double quote (uriparse)', 'core::fmt appends the pieces of a write in order', 'header levels and id counts stay below usize::MAX', 'a writer that returns an error gives no output']),
    'P10': dict(units=['vimwiki'], level='proof', ms=8000, bounded_covers='6000 (thorough 200000) generated documents in tree and text form (indentation, blanks and line ends varied) over every block and inline element and six settings: the text parses to the tree, the written tree parses back to the tree, formatting again changes nothing; random documents',
                level_note='Every Output<VimwikiFormatter> implementation, the formatter and the conversion to a string are verified for all trees and settings: the exact text each element appends (an equation per element over the texts of its parts) and that writing never fails. Reading that text back is decided by the bounded run only.',
                explanation='Contract of every writer: one equation per element type for what it appends to the output state (text, indentation, pending blank skipping), uniform over nesting.',
                assumptions=['str::trim*, truncate, sort_by and HashMap iteration behave as their assumed contracts', 'core::fmt appends the pieces of a write in order', 'Display of keywords, tags, inline code and math prints their text (derive_more)', 'decoded URI text and anchors of links are named, not defined', 'elements nest fewer than 2^64 deep']),
    'P11': dict(units=['paths'], level='proof', ms=5000, bounded_covers='paths of up to 4 components over five names; every link kind over 15 link paths, 4 wiki layouts and 5 pages; random wikis, pages and links',
                level_note='normalize_path, make_path_relative, make_output_path, make_relative_link and resolve_link are verified for all paths, wikis and links, with a proved lemma that following the produced reference leads to the target; std::path, uriparse and relative_path are assumed contracts over component sequences.',
                explanation='Functional contracts over component sequences: normal form, output file of a page, reference from one output file to another for each kind of link.',
                assumptions=['Unix paths', 'std::path, uriparse, relative_path and percent-encoding behave as the assumed contracts in specs/path.rs and specs/uri.rs', 'paths are valid UTF-8', 'which characters get percent-encoded is only covered by the bounded run']),
    'P12': dict(units=['wikis'], level='proof', ms=4000, bounded_covers='every choice of three wikis out of six directories over nine pages and four active indexes; random configurations of up to four wikis',
                level_note='All lookup functions of the configuration are verified for all configurations; Vec iterator adapters are verified re-implementations, std::path is an assumed contract over component sequences.',
                explanation='Functional contracts: index/name lookup is the first match, path lookup a deepest wiki holding the path, the active wiki and the page path inside it.',
                assumptions=['Unix paths; std::path behaves as the assumed contract in specs/path.rs', 'the active page lies in the active wiki']),
    'P14': dict(units=['copies'], level='proof', ms=6000, bounded_covers='3000 (thorough 60000) generated pages and random ones, parsed: copies compared part by part (as serialized data), strict equality against pages changed in one part, children against the public fields',
                level_note='Every to_borrowed, into_owned, strict_eq and into_children of every element type is verified for all elements, none is assumed. Copies of the parts of a URI, the finite map behaviour of HashMap and derived equality are assumed contracts.',
                explanation='Functional contracts over a part-by-part relation generated from each type declaration: a copy is the same as its original, strict_eq decides that relation, children are exactly the contained elements in order.',
                assumptions=['uriparse: as_borrowed/into_owned/from_parts keep the parts of a URI', 'derived PartialEq compares all parts; == on references to resources follows uriparse', 'std HashMap behaves as a finite map; derived From, IntoIterator and constructors do what derive_more declares', 'row and column counts of a table follow from its cells (strict equality of tables is by cells and alignment)']),
    'P13': dict(units=['linkdata', 'anchor'], level='proof', ms=5000, bounded_covers='all texts of up to 3 (thorough 4) symbols for encoding, anchors and links in documents, addresses of up to 4 symbols, property names in every order, and random ones, against independent encoders and the parts uriparse reports',
                level_note='Every function of link data and of anchors that encodes, decodes, splits, joins or answers about an address is verified for all inputs; that decoding undoes encoding, that any anchor makes a valid fragment and that a written anchor reads back are lemmas over those contracts. Copies and strict equality are P14.',
                explanation='Functional contracts: percent-encoding and decoding byte by byte, the fragment of an anchor, the parts of an anchor, the questions asked of a reference, what is fed into a hasher.',
                assumptions=['uriparse splits a reference as RFC 3986 says; percent_encoding encodes and decodes byte by byte', 'str::split, join and replacen find occurrences from the left', 'std HashMap behaves as a finite map, sort_unstable sorts', 'core::fmt appends the pieces of a write in order', 'collecting an iterator of texts into an anchor keeps them in order (bounded run)']),
    'P16': dict(units=['page'], level='proof', ms=5000, bounded_covers='every template of up to 3 (thorough 4) symbols out of 22, every page of two lines out of 17 in 44 configurations, and random ones, compared with an independent filling',
                level_note='fill_template, to_html_page, to_html_string, the placeholders and the getters and setters of the formatter are verified for all templates, pages and configurations; what an element writes is left open here (P09), std::fs, chrono, str::split_once and voca_rs are assumed contracts.',
                explanation='Functional contract: a recursive specification of one pass of filling, and the value of each variable over the formatter state the page left behind.',
                assumptions=['no element changes the private configuration of the formatter (it has no setter)', 'the date and the template file do not change while the page is made', 'the active page lies in the active wiki', 'voca_rs escapes & < > \" \' `']),
    'P17': dict(units=['cli', 'clifmt'], harness='cli', level='proof', ms=15000, threads=4,
                bounded_covers='the tool itself run in a scratch directory by an unprivileged user: every option and corner of wiki choice, caches cold, warm, stale and corrupt, extra paths; random file trees, configurations and commands, outputs compared with the library run by itself',
                level_note='run, convert, format, the loading of wikis, files and configuration, the cache and the choice of wikis are verified for all file trees, configurations and options: what is written is the conversion of what is read, to the output file of that page, nothing else is written or removed, and nothing is left out. std::fs, walkdir, serde_json, toml, sha1 and the page conversion itself are assumed contracts; reading g:vimwiki_list from vim, serve and inspect are not under contract.',
                explanation='Functional contracts with effects as permissions: each write, removal, cache entry and print needs leave that only the specified path and content have; postconditions name every file that must have been written.',
                assumptions=['files do not change while the tool runs; every file is formatted once', 'a cache entry found under a checksum holds the page of a text with that checksum', 'std::fs, walkdir, sha1, serde_json and toml behave as the assumed contracts in specs/cli.rs', 'output directories of wikis are not empty paths', 'options are parsed by structopt as declared']),
    'P18': dict(units=['htmlx', 'vimwiki', 'page', 'paths', 'wikis'], crash_only=True, level='proof', ms=15000,
                bounded_covers='40 kinds of link from every page and wiki layout of a list, 16 documents in 600 (thorough 4000) settings, all pairs of tokens, random documents: to_html_string, to_html_page and to_vimwiki_string (twice) of the page, to_html_string and to_vimwiki_string of each element',
                level_note='Every writer, the formatters, link resolution, output paths, wiki lookup and the filling of templates are verified with machine arithmetic: every unwrap, expect, index, slice and subtraction is an obligation. What is listed in trusted_base is covered by the bounded run only.',
                explanation='The preconditions of every call, bound and arithmetic operation in the functions that convert, discharged per function; only obligations whose failure would be a crash count here, what the functions compute is decided by P08, P10, P11, P12 and P16.',
                assumptions=['the page lies in the active wiki (documented by HtmlConfig)', 'header levels, id counts and element depth stay below usize::MAX', 'stack depth and running time are not modelled', 'dependencies (syntect, uriparse, chrono, std) do not panic where their assumed contracts have no precondition']),
}
