"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen_manifest.py)."""
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    a = {'files': files, 'mechanism': [{'name': m, 'where': files[min(k, len(files) - 1)]} for k, m in enumerate(mech)], 'observe_at': [observe] if isinstance(observe, str) else observe}
    if hook:
        a['hook_needed'] = hook
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}

PARSERS = 'vimwiki-core/src/lang/parsers'
LIST = [
 p('P01', 'Parsing never panics or leaves the text, whatever the input',
   'Parsing any UTF-8 text as a page, or as any single block or inline element, ends with an element or an error: it never panics, never reads outside the text, never overflows an offset and never builds text from bytes that are not valid UTF-8.',
   ['inputs'], 'every UTF-8 text and every element kind it can be parsed as',
   'The tests parse a few hundred hand-written snippets, almost all ASCII and well formed; panics and split characters sit at offsets and byte patterns no sample hits (three were found and repaired here).',
   [PARSERS + '/span.rs', PARSERS + '/utils', PARSERS + '/vimwiki'],
   ['span slicing with unchecked UTF-8 conversion', 'byte searches that stop at ASCII bytes only', 'region lengths by subtraction'],
   'Language::parse result (or panic)'),
 p('P02', 'Text held by parsed elements is taken verbatim from the source',
   'Every piece of text that parsing puts into an element (plain text, keywords, decorated text, code, math, comments, tags, link descriptions) occurs, unchanged and contiguous, in the stretch of source its element was read from.',
   ['inputs'], 'every UTF-8 text, every element of the parsed tree',
   'Tests compare a handful of fixed strings; off-by-one slices, wrong trimming and mixed-up captures depend on delimiters, blanks and multi-byte characters in positions that samples do not enumerate.',
   [PARSERS + '/utils', PARSERS + '/vimwiki/blocks', PARSERS + '/vimwiki/blocks/inline'],
   ['captures are sub-spans of the input', 'conversion of a span to text copies exactly its remaining bytes'],
   'text fields of the parsed tree'),
 p('P03', 'Regions of parsed elements nest, stay in order and lie in the source',
   'Every located element of a parsed tree covers a region that lies inside its parent\'s region (and the source), starts and ends on character boundaries, and siblings appear in source order without overlapping.',
   ['inputs'], 'every UTF-8 text, every element of the parsed tree',
   'The few region tests check single elements at fixed offsets; nesting and ordering are relations over whole trees and fail only for particular nestings (a bundled definition list did, and was repaired).',
   [PARSERS + '/vimwiki', PARSERS + '/utils/convert.rs', 'vimwiki-core/src/lang/elements/utils'],
   ['capture() records the consumed span', 'locate() turns a captured span into a region', 'children are parsed from the captured sub-span'],
   'region of each located element'),
 p('P04', 'Positions reported for a span are the true lines, columns and bytes',
   'For any stretch of any text, the reported line is one more than the newlines before it, the column one more than the characters between it and its line start (likewise for its last byte), the blank test holds exactly when all bytes are spaces or tabs, and iterating from either end yields exactly its bytes.',
   ['inputs'], 'every text and every stretch of it, from either end in any interleaving',
   'Tests only use spans that begin at offset 0 and a few ASCII lines; four of these operations were wrong elsewhere (end position, blank test, reverse iteration) without any test noticing.',
   [PARSERS + '/span.rs'], ['memchr counting of newlines', 'code point counting from the last newline', 'span iterator bounds'],
   'span accessors', 'cfg vimwiki_verif exposes the parsers module'),
 p('P05', 'Regions behave as the half-open ranges they were made from',
   'A region made from a start and length, a range, an inclusive range or a span covers exactly the positions of that range, membership answers accordingly for every position up to the largest address, and relocating, mapping or borrowing a located element keeps its region and depth.',
   ['inputs'], 'every pair of machine integers and every queried position',
   'Tests use small numbers; the interesting cases are empty, reversed and maximal ranges where the arithmetic overflows (membership and inclusive ranges did).',
   ['vimwiki-core/src/lang/elements/utils/region.rs', 'vimwiki-core/src/lang/elements/utils/mod.rs'],
   ['offset/length representation', 'conversions from std ranges'], 'Region and Located accessors'),
 p('P06', 'List items report the prefix of their position and their todo state',
   'For every list item, whatever its type, suffix and position, the generated prefix is the position counted from one written in the item\'s style (decimal, letters a..z, aa.., roman numerals, or the fixed symbol) followed by its suffix, it is never computed with a panic, the todo predicates hold exactly for the stored status, and the progress of an item is the mean of its sub-items\' progress (its own when none has any), always between 0 and 1.',
   ['inputs'], 'every item type, suffix, position below the largest address, todo status and nesting of sub-lists',
   'Tests check a few dozen positions; prefixes broke at positions (32767, 2^32) no sample reaches, and carry boundaries (z/aa, zz/aaa, IX/X) are easy to get wrong elsewhere.',
   ['vimwiki-core/src/lang/elements/blocks/lists/item.rs', 'vimwiki-core/src/lang/elements/blocks/lists/mod.rs'],
   ['position to prefix conversion', 'todo status predicates', 'recursive progress'], 'ListItem::to_prefix, is_todo_*, compute_todo_progress'),
 p('P07', 'Table iteration, spans and alignment see exactly the cells of the table',
   'For every table, rectangular or ragged, iterating rows, columns or all cells (borrowed or consuming, with or without positions) yields every existing cell exactly once, in row-major (or column) order and paired with its own position; row and column counts are the smallest that hold every cell; the row/column span of a content cell is one plus the run of span cells directly below/right of it; the alignment of a column is that of its first alignment cell; header rows are those before the first divider row and body rows the non-divider rows after it.',
   ['inputs'], 'every finite set of cells at any positions, from any point of the iteration',
   'Tests use full grids; tables whose rows have different lengths (which the parser produces) lost cells and mis-measured spans unnoticed, and nested iteration state is easy to get wrong at row ends.',
   ['vimwiki-core/src/lang/elements/blocks/tables.rs'],
   ['position-keyed cell map', 'iterator cursors over rows and columns', 'span runs and divider detection'], 'Table accessors and iterators'),
 p('P09', 'HTML output is well nested and document text never becomes markup',
    'Whatever text a document holds, the HTML written for it is well nested (every opened tag is closed, in order, and every attribute value and comment ends), its only markup is that of the elements, and every text the reader should see appears in order with the markup characters escaped.',
    ['inputs'], 'every element tree, with any text in any position, and every HTML configuration',
    'Tests convert a few fixed elements; each position that holds text (languages, metadata, ids, link properties, comments, environments) needs its own escaping, and nesting breaks only in combinations of elements and settings.',
    ['vimwiki-core/src/lang/output/html/mod.rs', 'vimwiki-core/src/lang/output/html/formatter.rs', 'vimwiki-core/src/lang/output/html/convert.rs', 'vimwiki-core/src/lang/output/html/utils.rs'],
    ['opening and closing tags of every element', 'escaping of every text position', 'ids and hrefs', 'comments in HTML'], 'to_html_string of pages and elements'),
p('P10', 'Documents survive being written as vimwiki text and read back',
   'Every element is written in its own vimwiki form (with the configured markers, indentation and trimming) around the written forms of its parts, in order and without failing; parsing a document finds the elements that were written in it; a written document reads back as the same document (blanks at the ends of table cells and comment lines aside), and formatting it a second time changes nothing.',
   ['inputs'], 'every element tree and every vimwiki output configuration',
   'Tests write single elements and parse single elements, never one after the other: items whose letters look like roman numerals, empty blockquote lines and similar texts did not read back, and indentation or trimming goes wrong only in nested elements under particular settings.',
   ['vimwiki-core/src/lang/output/vimwiki/mod.rs', 'vimwiki-core/src/lang/output/vimwiki/formatter.rs', 'vimwiki-core/src/lang/output/vimwiki/convert.rs', PARSERS + '/blocks'],
   ['markers and padding of every element', 'indentation by nesting level', 'trimming of lines', 'recognition of each element by the parser'], 'to_vimwiki_string of pages and elements; parsing'),
p('P11', 'Pages are written to, and links point to, the right output files',
   'A page of a wiki is written to the same place below the wiki\'s html directory with only its extension replaced; normalizing a path resolves every `.` and `..` without escaping the root; and whatever the wikis, the page and the kind of link, following the produced relative reference from the page\'s output file leads to the output file of the linked page (the index page for a directory, the named or numbered wiki for links between wikis, the diary page for diary links) with the link\'s anchor, raw and remote links stay as they are, and a link to a missing wiki is an error.',
   ['inputs'], 'every set of wikis, page path and link',
   'Tests use a few flat wikis; wrong references appear only for particular combinations of depth, shared prefixes, `..`, directories and link kind (directory links into another wiki and directories with blanks were wrong).',
   ['vimwiki-core/src/lang/output/html/utils.rs', 'vimwiki-core/src/lang/output/html/config.rs', 'vimwiki-core/src/lang/elements/blocks/inline/links/data.rs'],
   ['resolve_link and make_relative_link', 'make_output_path and path_within', 'path of a link'], 'href and src of links in the html output', 'cfg vimwiki_verif exposes the html utils module'),
 p('P12', 'A page, name or index finds the wiki it belongs to',
   'In every configuration, looking up a wiki by index yields the wiki at that position or none, by name the first wiki of that name, by path a wiki whose directory contains the path such that no deeper wiki does; the current wiki is the active one or else one rooted at the page\'s own directory, and the way from the page to the wiki root climbs exactly as many directories as the page is below it.',
   ['inputs'], 'every list of wikis, page path, name and index',
   'Tests use one or two wikis; nested wikis, names that repeat and directories that share a name prefix (/a and /ab) need combinations that samples do not reach.',
   ['vimwiki-core/src/lang/output/html/config.rs'], ['lookup by deepest containing directory', 'active wiki and temporary wiki'], 'HtmlConfig lookup methods'),
 p('P13', 'Addresses and anchors keep what is written and answer for it',
   'Encoding a text as an address changes nothing but what an address cannot hold (controls, blanks, quotes, angle brackets, back quotes, other than ASCII, every pound sign but the first), and decoding it gives what decoding the text itself gives, so a text without percent signs comes back. Every anchor makes a fragment that a reference accepts, with # before its first part and %23 before the others, each part escaped where a fragment needs it and existing escapes kept; reading the anchor of a link splits its fragment at %23, and an anchor written as #a#b reads back with the same parts. A link is local exactly with no scheme, file or local, and remote otherwise; a local anchor has a fragment only; a directory link ends in an empty segment; its file path has its segments in order, absolute if the address is; properties are found by their name; and equal links hash equally whatever the order of their properties.',
   ['inputs'], 'every text, anchor and address',
   'Tests encode and ask about a handful of addresses; escapes at the edge of a part, several pound signs, bytes beyond ASCII or an unusual scheme need inputs nobody samples.',
   ['vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs', 'vimwiki-core/src/lang/elements/blocks/inline/links/data.rs'],
   ['encode_uri and decode_uri', 'to_encoded_uri_fragment, from_uri_fragment, to_anchor and Display of Anchor', 'predicates of LinkData', 'Hash of LinkData'], 'LinkData and Anchor methods'),
 p('P16', 'A page is its template with every variable filled in exactly once',
   'The page made of a document is the template (the file it asks for with %template, or the configured text) in which each %title%, %date%, %content%, %css%, %encoding%, %root_path% and %wiki_path% is replaced, in one pass, by the escaped title (the last %title of the document or else the file name), its last %date or else today, the HTML of its content, the style sheet of the current wiki, utf-8, the way to the root of the wiki, and its path within the wiki; every other character of the template is kept, what was filled in is never filled in again, and an unreadable template is an error.',
   ['inputs'], 'every template, document and configuration',
   'Tests fill one variable at a time; titles or contents that look like variables were replaced again (a title of %content% put the whole page in the title) and a title with < was not escaped, without any test noticing.',
   ['vimwiki-core/src/lang/output/html/convert.rs', 'vimwiki-core/src/lang/output/html/formatter.rs'],
   ['template variables', 'title, date and template placeholders'], 'Page::to_html_page'),
 p('P18', 'Converting a document never crashes',
   'Whatever document was parsed and whatever the settings (no wiki, nested or relative wikis, a wiki index that does not exist, any page path that lies in its wiki, empty extensions, ugly links, any base address, theme, template, wrap column, todo characters), writing the document or any element of it as HTML, as an HTML page or as vimwiki text ends with the text or with an error value and never panics or hangs: a link to a wiki, day or file that does not exist, an empty table, an unknown code language or a missing template are no exception. Making vimwiki text never fails, and gives the same text each time.',
   ['inputs'], 'every document and configuration',
   'Tests convert small well-formed documents under default settings; an unwrap, index or subtraction goes wrong only for one kind of element in one layout of wikis or with one setting.',
   ['vimwiki-core/src/lang/output/html', 'vimwiki-core/src/lang/output/vimwiki'],
   ['Output implementations', 'resolve_link, make_output_path and path_within', 'to_html_page and fill_template', 'formatters'], 'ToHtmlString, ToHtmlPage and ToVimwikiString'),
 p('P14', 'Copies of elements equal them, strict equality sees every part, none is lost',
   'For every element and page, the borrowed and the owned copy hold the same parts at the same regions as the original (and are equal to it, strictly or not) and making them never fails; two elements are strictly equal exactly when all their parts, down to every text, setting, address and region at every depth, are (row and column counts of tables follow from the cells); and the children of an element are all the elements it directly contains, each once, with their regions, in order (cells in no fixed order).',
   ['inputs'], 'every element tree',
   'Tests copy or compare single small elements; a part dropped by one arm of one copy, a region or a nested part that one comparison does not look at, or one container whose children are cut short shows only for particular kinds of element nested in particular ways.',
   ['vimwiki-core/src/lang/elements', 'vimwiki-core/src/lang/elements/utils/mod.rs'],
   ['to_borrowed and into_owned of every element', 'StrictEq of every element and of Located', 'IntoChildren of every container'],
   'to_borrowed, into_owned, strict_eq and into_children of pages and elements'),
p('P08', 'The HTML of every element is exactly what the document says, ids included',
   'The HTML written for a page is the concatenation, in document order, of the HTML of its elements, and each element writes exactly the tags of its kind with its own (escaped) text and the HTML of its children inside: paragraph lines are joined by a line break or a space as configured and a paragraph of comments only has no p tags; a list is ol or ul by its first item and a todo state gives its class; tables have a thead of the rows above the divider and span attributes only for spans; comments appear only when configured. The id of a header, bold text or tag is its own normalized text (repeated ones get -1, -2, ...); the anchor div of a header spells the path of the headers it is below, and only those.',
   ['inputs'], 'every element tree, configuration and sequence of elements written before',
   'Tests write single elements with a fresh formatter; the ids and paths depend on everything written before. Headers of an earlier section stayed in the path of a later, deeper header without any test noticing.',
   ['vimwiki-core/src/lang/output/html/mod.rs', 'vimwiki-core/src/lang/output/html/formatter.rs', 'vimwiki-core/src/lang/output/html/utils.rs'],
   ['Output<HtmlFormatter> of every element', 'header and id state of the formatter', 'build_complete_id, ensure_unique_id, normalize_id'],
   'ToHtmlString::to_html_string'),
p('P17', 'The command line tool converts the chosen pages, each to its own output file',
   'Converting processes exactly the chosen wikis (by index in the configuration or by name, all when none are named) or the given paths: for every file there with the wiki\'s extension the HTML of that file\'s current text, under the configuration with that page and its wiki active, is written to that page\'s output file (or printed), the style sheet is added where asked, and nothing else is written; formatting writes to a file only its own formatted text and only when asked to work inline. A page taken from the cache equals a freshly parsed one; without the cache option the cache directory is not touched, and pruning removes only cache entries of texts no loaded page has.',
   ['inputs', 'histories'], 'every file tree, configuration, choice of options and earlier state of the cache',
   'The tool has no tests beyond loading one file; which wiki is chosen, what the cache holds and which file is written depend on combinations of wikis, options, earlier runs and file contents (five such defects were repaired).',
   ['vimwiki-cli/src/lib.rs', 'vimwiki-cli/src/ast.rs', 'vimwiki-cli/src/subcommand/convert.rs', 'vimwiki-cli/src/subcommand/format.rs', 'vimwiki-cli/src/utils.rs', 'vimwiki-cli/src/opt.rs'],
   ['run dispatches to the subcommands', 'checksum cache of parsed pages and its pruning', 'walk of wikis and paths, output path of each page', 'in place formatting', 'wikis from configuration, vim and the command line', 'choice of wikis by index or name'],
   'files and standard output after a run'),
]
NA = {}
