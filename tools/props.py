import json
F='src/mdpo/'
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[F+x for x in files],mechanism=[dict(name=n,where=F+w) for n,w in mech],observe_at=[observe],hook_needed=None)))
p('C01','Translations survive every catalog history',
 "Along any history of source edits, md2po re-extractions, and translator or reviewer edits of the PO file, a translation once written for a (context, message) pair is never lost, altered, attached to another message or marked fuzzy by md2po while the message exists in the source or is preserved as obsolete. When a message disappears and reappears (default or --merge mode) it comes back, exactly once and not obsolete, with its translation and its reviewed or fuzzy state. The comments and other flags of entries which stay in the catalog, or become obsolete, are kept.",
 ['histories'],'all histories of {edit source, extract in default/merge/remove mode, translate, mark fuzzy/reviewed} over small message sets with contexts and link references; random longer ones',
 'Unit tests extract once or twice into a fresh or hand-written PO file; loss of a translation needs a particular multi-step history (translate, remove, re-add, with another message or context in between).',
 ['md2po/__init__.py','po.py','polib.py'],[('Md2Po._save_msgid','md2po/__init__.py'),('mark_not_found_entries_as_obsoletes, remove_not_found_entries, find_entry_in_entries','po.py')],'PO file written by md2po after each step')
p('C02','The catalog mirrors the source according to the not-found mode',
 "After an extraction the non-obsolete entries of the catalog contain each enabled message of the source exactly once, keyed by (context, msgid), new ones appended in document order. Entries not found in the source become obsolete by default, are left untouched with merge mode (-m, mark_not_found_as_obsolete=False), and are deleted with remove mode (-r, preserve_not_found=False).",
 ['histories','configurations'],'every catalog state (live/obsolete x translated/untranslated x fuzzy, any order) x every source x the three modes, through the API and the CLI',
 'The set of catalog states an extraction can start from is exponential in the messages; tests fix one of them per mode.',
 ['md2po/__init__.py','md2po/__main__.py','po.py'],[('Md2Po.extract','md2po/__init__.py'),('find_entry_in_entries','po.py')],'PO file / returned POFile')
p('C03','Re-extracting an unchanged source changes nothing',
 "Running md2po a second time with the same sources, options and PO file leaves the PO file byte-identical, whatever the catalog contained before the first run. With --check the first run exits 2 exactly when it changed the bytes of the file and the second one exits 0.",
 ['histories','inputs'],'every catalog state and mode of the lifecycle model, and random documents with long, multi-line and non-ASCII messages at several wrap widths',
 'Idempotence quantifies over every starting catalog and document; tests check single extractions.',
 ['md2po/__init__.py','io.py','po.py'],[('Md2Po.extract','md2po/__init__.py'),('save_file_checking_file_changed','io.py')],'PO file bytes, exit code')
p('C04','Extraction is complete, canonical and ordered',
 "For every document of the supported Markdown subset the messages extracted by md2po are exactly the texts of its paragraphs, headings, list items, table cells and display math, one message per text, in document order and without duplicates. Inside a message lines are joined by spaces and inline markup is written canonically (*em*, **strong**, ~~del~~, code spans with the fewest valid backticks, [text](href \"title\"), <autolink>, images, wikilinks, $math$, __underline__ when that extension is enabled), independently of the surrounding blocks and of how the source wrote it; spaces in link targets are written %20.",
 ['inputs','configurations'],'documents generated from the block and span grammar: nested lists, quotes, tables, headings, spans nested in spans, any amount of backticks, md4c extensions on and off',
 'The inputs are all Markdown documents; interactions of nesting, sibling blocks and span contents cannot be enumerated by example.',
 ['md2po/__init__.py','text.py','md.py','md4c.py'],[('Md2Po.enter_block/leave_block/not_plaintext_enter_span/not_plaintext_leave_span/text','md2po/__init__.py'),('min_not_max_chars_in_a_row','text.py')],'entries of the extracted PO file')
p('C05','po2md replaces exactly the translated messages',
 "In the output of po2md every message with a non-empty translation in the catalog for its (context, msgid) is replaced by that translation, complete and unaltered apart from line wrapping, and every other message keeps its original text. Nothing else of the document is added, lost or reordered, and the result only depends on the document, the catalogs and the options (not on which other messages were translated).",
 ['inputs','configurations'],'random documents x random partial catalogs (with contexts, fuzzy and empty entries, translations longer or shorter and with other markup) x wrap widths',
 'Each document has exponentially many partial catalogs; tests translate everything in small documents.',
 ['po2md/__init__.py','po.py'],[('Po2Md._save_current_msgid, _translate_msgid, text','po2md/__init__.py'),('pofiles_to_unique_translations_dicts','po.py')],'Markdown written by po2md, parsed with md4c')
p('C06','po2md preserves the document structure',
 "The output of po2md parses to the same block structure as its input: the same sequence and nesting of headings (with level), paragraphs, lists (kind, items, task marks), quotes, tables (columns and alignments), fenced or indented code blocks (language and content), HTML blocks and thematic breaks, once mdpo commands are removed and list tightness and numbering normalised. This holds whatever the translations say as long as they are inline text (they do not start as another block), for every supported nesting.",
 ['inputs'],'random documents of the supported subset with nested lists, lists in quotes, code in lists and quotes, tables, HTML, with and without translations, any wrap width',
 'Writing blocks depends on parser state left by previous blocks; tests cover a fixed set of adjacent pairs.',
 ['po2md/__init__.py'],[('Po2Md.enter_block/leave_block/_save_current_line','po2md/__init__.py')],'Markdown written by po2md, parsed with md4c')
p('C07','md2po and po2md agree on messages; rendering is a fixpoint',
 "For every supported document the messages md2po extracts are the ones po2md looks up, so translating with a catalog extracted from the document and left untranslated gives an equivalent document from which md2po extracts the same messages. Rendering its own output again with po2md gives the same Markdown (byte-identical up to empty lines in documents with lists).",
 ['inputs'],'random documents of the supported subset, wrap widths',
 'md2po and po2md implement the same state machine twice; every divergence makes some message silently untranslatable, and tests exercise the two separately.',
 ['md2po/__init__.py','po2md/__init__.py'],[('text/enter_span/leave_span of both parsers','md2po/__init__.py'),('the same in','po2md/__init__.py')],'catalog and Markdown output')
p('C08','Disable and enable commands have exactly their documented scope',
 "mdpo-disable ... mdpo-enable excludes exactly the messages between them, mdpo-disable-next-block/-line exactly the next message and mdpo-enable-next-block/-line includes exactly the next message while disabled, for any sequence of commands. md2po (extraction), po2md and mdpo2html (translation) agree on the scope, so a disabled text is never extracted and never translated and any other text is.",
 ['inputs','programs'],'all command/block sequences up to a bound, over every command and its line/block variant, longer ones sampled, for the three tools',
 'The commands form a small state machine whose bugs need particular sequences (two pending flags, enable without disable, end of list); tests use two or three commands each.',
 ['md2po/__init__.py','po2md/__init__.py','mdpo2html/__init__.py','command.py'],[('command, _save_current_msgid','md2po/__init__.py'),('command, _save_current_msgid','po2md/__init__.py'),('handle_comment, _process_replacer','mdpo2html/__init__.py')],'catalog, disabled_entries, translated output')
p('C09','Context, translator and include commands attach to exactly one message',
 "mdpo-context and mdpo-translator set the msgctxt and the extracted comment of exactly the next message, being consumed by it even if it is disabled, and never of any other; po2md and mdpo2html look the message up with the same context. mdpo-include adds exactly its own message at its place without being written in the output.",
 ['inputs','programs'],'all command/block sequences up to a bound combining context, translator and include with disable commands and repeated messages',
 'Leaks of pending state need specific sequences of commands and blocks.',
 ['md2po/__init__.py','po2md/__init__.py','mdpo2html/__init__.py'],[('command, _save_current_msgid','md2po/__init__.py'),('command, _translate_msgid','po2md/__init__.py')],'catalog entries, translated output')
p('C10','Code blocks are extracted exactly when requested',
 "A code block is extracted, verbatim, if and only if code blocks are included globally (include_codeblocks, -c/--include-codeblocks, mdpo-include-codeblocks not cancelled by mdpo-disable-codeblocks) or by a pending mdpo-include-codeblock, and there is no pending mdpo-disable-codeblock; the pending commands affect exactly the next code block. po2md replaces a code block by its translation if the catalog has it and keeps it verbatim otherwise.",
 ['inputs','programs','configurations'],'all sequences up to a bound of the four code commands, fenced and indented code blocks, disable commands and paragraphs, with the option on and off',
 'The outcome depends on four flags with different lifetimes; tests check each alone.',
 ['md2po/__init__.py','po2md/__init__.py'],[('command, leave_block','md2po/__init__.py')],'catalog entries, Markdown output')
p('C11','Link references are extracted once and translated at the end',
 "Documents using links or images get, after their messages, one fuzzy entry [target]: href \"title\" with msgstr equal to msgid per link reference definition written in a line (lines of code blocks or paragraphs which look like one are not), and links using a definition are extracted as [text][target] (or [target]). po2md writes the definitions at the end of the output, each once and translated when the catalog translates it; a reviewed (non-fuzzy) or translated definition keeps its state when extracted again.",
 ['inputs','histories'],'documents with several definitions (titles, equal hrefs, unused ones, angle brackets) in any position and referenced and inline links and images',
 'Resolution matches links by (href, title) against definitions found by a line parser; clashes need several definitions.',
 ['md.py','md2po/__init__.py','po2md/__init__.py'],[('parse_link_references','md.py'),('_dump_link_references','md2po/__init__.py'),('_append_link_references','po2md/__init__.py')],'catalog, Markdown output')
p('C12','Locations identify the top-level block of each message',
 "With locations enabled every extracted entry of a file has exactly one reference, file:block N (kind), where N is the ordinal and kind the name of the top-level block in which the message is first found in that file (the first of them for several files), also when the catalog already had the entry, with other references. With --no-location (location=False), or when extracting from a string, no entry has references; locations never change which messages are extracted.",
 ['inputs'],'documents with every kind of block at every nesting, several files',
 'The block counter depends on all enclosing blocks entered and left before; tests count a few blocks.',
 ['md2po/__init__.py','md4c.py'],[('enter_block counters','md2po/__init__.py'),('_save_msgid','md2po/__init__.py')],'occurrences of entries')
p('C13','Extracting several files equals extracting each one',
 "Extracting a list or glob of files gives the deduplicated concatenation, in order, of what extracting each file alone gives: no parser state (pending commands, disabled state, context, comments, code block settings, link references, block counters) passes from a file to the next. Locations name the file and block of the first appearance.",
 ['inputs','histories'],'all pairs of small command/block files and random lists of documents ending in any parser state',
 'State leaks show only if a file ends with that state pending and the next one is sensitive to it.',
 ['md2po/__init__.py'],[('Md2Po.extract reset of state','md2po/__init__.py')],'catalog')
p('C14','Exit codes of the CLIs report exactly the state they check',
 "md2po, po2md and mdpo2html exit 0 unless a requested check fails: --check gives 2 exactly when a saved file differs from its previous bytes, and --no-obsolete gives 3 with obsolete entries in their PO files, --no-fuzzy 4 with fuzzy ones and --no-empty-msgstr 5 with untranslated ones (the highest one wins). Each failed check prints one line per offending entry on stderr locating it.",
 ['configurations','histories'],'every combination of check flags x every kind of catalog (none/obsolete/fuzzy/empty and combinations) x saved file new/unchanged/changed',
 'The flags and catalog features combine; tests use one flag with one feature.',
 ['md2po/__main__.py','po2md/__main__.py','mdpo2html/__main__.py','po.py','cli.py'],[('run','md2po/__main__.py'),('run','po2md/__main__.py'),('run','mdpo2html/__main__.py'),('check_*_entries_in_filepaths','po.py')],'exit status, stderr')
p('C15','CLIs write and print exactly what the API returns',
 "For every combination of save, quiet, debug and content/file/stdin-less input options each CLI prints the result on stdout unless quiet or saving (as documented), writes the file only when saving is requested, and in both cases with exactly the content the corresponding API call returns. Every option given on the command line reaches the implementation (wrap width, plaintext, aliases, extensions, ignore lists, metadata, location, encodings, not-found modes, events), the exit code of --check included.",
 ['configurations'],'the cross product of the boolean options with sampled values of the others over sampled documents',
 'Flag combinations are exponential; tests use one option at a time.',
 ['md2po/__main__.py','po2md/__main__.py','mdpo2html/__main__.py','cli.py'],[('parse_options, run','md2po/__main__.py'),('parse_options, run','po2md/__main__.py')],'stdout, saved files')
p('C16','Events observe everything and skip exactly when a handler returns False',
 "The enter/leave block and span, text, command, msgid and link_reference events are raised for every such occurrence in document order with the parsed values, all the handlers of an event are called in registration order, and the part is skipped if and only if some handler returns False (not merely a falsy value), without other effects on the rest of the document. Handlers which do not return False, and debug mode, never change the result.",
 ['inputs','schedules'],'all lists of handlers returning False/None/True/0 up to length 3 over every event, and documents of the other models',
 'A handler that is not called or a wrong skip only shows with several handlers or falsy results.',
 ['event.py','md2po/__init__.py','po2md/__init__.py'],[('raise_skip_event, add_debug_events, parse_events_kwarg','event.py')],'calls of handlers, result')
p('C17','md2po2md composes md2po and po2md per language and file',
 "md2po2md leaves, for every language and every matched file, a PO file at the expanded output path equal to what md2po gives for it (preserving the translations already there) and a Markdown file equal to what po2md gives from it; languages and files do not influence each other. This holds for every output schema with the {lang}, {basename} and {ext} placeholders that gives each language and file its own outputs, and for every option. Running it again without edits changes no file (and --check exits 2 exactly when a file changed), and after translating a PO file of a language only that language's Markdown changes.",
 ['configurations','histories'],'1-3 languages x 1-3 files in directories x output schemas with every placeholder x histories of translate/edit/rerun',
 'Isolation among languages and files over several runs needs histories; tests run it once.',
 ['md2po2md/__init__.py','md2po2md/__main__.py'],[('markdown_to_pofile_to_markdown','md2po2md/__init__.py'),('parse_output_path schema','md2po2md/__init__.py')],'files produced')
p('C18','mdpo2html translates exactly the messages with translation',
 "In an HTML document rendered from Markdown mdpo2html replaces the content of each paragraph, heading, tight list item and table cell whose message has a non-empty translation (for its context) by the rendering of the translation and leaves every other text and tag as it was (the contents of code blocks and <div> included). Referenced links are found with their definitions, translated or not. Disabled texts are not translated and mdpo commands are removed, other comments are kept.",
 ['inputs','configurations'],'documents of paragraphs, headings, lists, quotes and tables with em/strong/code/links/images rendered by md4c x partial catalogs x commands',
 'Replacement state depends on previous tags; tests use single elements.',
 ['mdpo2html/__init__.py'],[('_process_replacer, handle_starttag, handle_endtag, handle_data, handle_comment','mdpo2html/__init__.py')],'HTML output')
p('C19','Wrap width only moves line breaks',
 "The wrap width of po2md (0 or inf meaning no wrapping) never changes the parsed output document, and lines of top-level paragraphs exceed it only by their last piece, when they have no place to break. The wrap width of md2po never changes the parsed catalog.",
 ['inputs','configurations'],'random documents and translations x widths from 10 to unlimited',
 'Wrapping interacts with markup and nesting at every possible column.',
 ['po2md/__init__.py','md2po/__init__.py','text.py'],[('_save_current_msgid wrap','po2md/__init__.py'),('parse_wrapwidth_argument','text.py')],'Markdown output, PO file')
p('C20','Command syntax and aliases are recognised uniformly',
 "A one-line HTML comment is an mdpo command exactly when it has the documented form for any amount of surrounding whitespace, its argument being the text without trailing spaces; the three tools recognise the same ones. Command aliases, with or without the mdpo- prefix in the target, behave exactly like the aliased command in every tool, invalid targets are rejected, and in md2po the commands requiring an argument raise ValueError without it.",
 ['inputs','configurations'],'every command x spacing x argument x alias configuration, over the three tools',
 'The grammar has unbounded spacing/arguments and the alias map is arbitrary.',
 ['command.py','cli.py','md2po/__init__.py','po2md/__init__.py','mdpo2html/__init__.py'],[('parse_mdpo_html_command, normalize_mdpo_command_aliases','command.py'),('_process_command','md2po/__init__.py')],'parsed command, catalog, output')
p('C21','Plaintext mode extracts the same messages without markup',
 "With plaintext enabled md2po extracts the same texts as without it, in the same order, each one with its markup characters removed (the concatenated literal text of its spans), plus the titles of links and images of enabled texts. Commands, contexts and code block inclusion behave as in the default mode.",
 ['inputs','configurations'],'random documents of the supported subset in both modes',
 'Plaintext has its own span callbacks; tests cover a few spans.',
 ['md2po/__init__.py'],[('enter_span, leave_span, text','md2po/__init__.py')],'catalog entries')
p('C22','PO checks locate exactly the offending entries',
 "For every PO file content the obsolete, fuzzy and empty-msgstr checks report exactly one location per run of obsolete lines, per entry flagged fuzzy, and per entry with an empty msgstr respectively, at the right line, never reporting the header, and nothing else. The verdicts agree with the entries as parsed from the file.",
 ['inputs'],'all sequences of PO lines/entries up to a bound: header, live/obsolete, fuzzy with other flags, multi-line msgid and msgstr, with or without final newline',
 'Line-based checks over arbitrary files; tests give two or three entries.',
 ['po.py'],[('parse_obsoletes_from_content_lines, parse_fuzzy_from_content_lines, parse_empty_msgstr_from_content_lines','po.py')],'list of locations')
p('C23','Path filtering ignores exactly the matching files',
 "The files processed for a glob or list are exactly those matched whose path, file name, directory name and directory path are not in the ignore list, once each and sorted, in md2po, po2md and mdpo2html. An ignored file has no influence at all on the result, and existing files are read whatever their names look like.",
 ['inputs','configurations'],'all small directory trees x ignore lists of names, paths and directories',
 'The combinations of trees and ignore entries are exponential.',
 ['io.py','md2po/__init__.py','po.py'],[('filter_paths','io.py'),('paths_or_globs_to_unique_pofiles','po.py')],'processed files')
p('C24','Translations of several PO files are looked up by context and msgid',
 "With several PO files po2md and mdpo2html use, for each (context, msgid), the last non-empty translation in the order of the files, and never one of another context or message; messages with context are not translated with the translation without context nor the contrary. Empty translations count as absent; fuzzy and obsolete ones are used like the others.",
 ['inputs','configurations'],'all small sets of catalogs over two messages, two contexts and empty/non-empty translations, in every order',
 'Overriding among catalogs needs several files with overlapping entries.',
 ['po.py','po2md/__init__.py','mdpo2html/__init__.py'],[('pofiles_to_unique_translations_dicts','po.py'),('_translate_msgid','po2md/__init__.py')],'translated output')
p('C25','Command-line values are parsed faithfully',
 "Values in key:value form are split at the first separator that is not escaped with a backslash, with the separators of the key unescaped and the spaces after the separator dropped, rejecting values without separator and repeated keys. Wrap widths accept positive numbers, and 0, negatives and inf as unlimited, rejecting anything else with exit status 1 (CLI) or ValueError (API).",
 ['inputs'],'all strings up to a bound over a small alphabet with separators and backslashes; numeric spellings',
 'Escape handling depends on arbitrary strings.',
 ['text.py','cli.py'],[('parse_escaped_pair(s), parse_wrapwidth_argument','text.py'),('parse_command_aliases_cli_arguments, parse_metadata_cli_arguments','cli.py')],'parsed values')
p('C26','Extraction options change exactly what they document',
 "ignore_msgids removes exactly those messages, the default msgstr fills exactly the new entries without a translation, metadata updates exactly the given header fields, and xheader adds X-Generator; none of them changes any other entry or the translations present in the catalog. The MO file contains exactly the translated, not fuzzy entries.",
 ['configurations','histories'],'every combination of the options x catalog states and documents of the lifecycle model',
 'Options interact with existing catalogs; tests use fresh ones.',
 ['md2po/__init__.py'],[('_save_msgid, extract','md2po/__init__.py')],'catalog, MO file')
with open(__file__.replace('tools/props.py','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
