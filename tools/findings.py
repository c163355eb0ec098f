"""Write known_findings.json: what the findings are and the property of each repair."""
import json,os,sys,subprocess
F=[]
def f(p,what,call,want): F.append(dict(property=p,what=what,call=call,want=want))
f('C03','previous messages (#|) of entries which become obsolete are dropped by the next extraction, because polib does not read them back (#~|)',"check_twice('a\\n', '#\\nmsgid \"\"\\nmsgstr \"\"\\n\\n#| msgid \"c\"\\nmsgid \"b\"\\nmsgstr \"\"\\n')",[2,0])
f('C04','links with the same text and relative target are extracted as autolinks, which are not Markdown links (documented clash, fixed by the tests): [foo](foo)',"md2po('[foo](foo)\\n')",[['','[foo](foo)']])
f('C05','ordinary comments of one word are removed by po2md (fixed by the tests): <!-- TODO -->',"po2md('<!-- TODO -->\\n\\na\\n', [])",'<!-- TODO -->\n\na\n')
f('C06','display math beside other texts of a paragraph splits it in po2md: a $$b$$ c',"rewrite('a $$b$$ c\\n')",'a $$b$$ c\n')
f('C06','lists after the heading that starts a list item go out of the item in po2md: - # h / - a',"rewrite('- # h\\n  - a\\n')",'- # h\n   - a\n')
f('C06','quotes that start items of quoted lists go out of them in po2md: > - > q',"rewrite('> - > q\\n')",'> - > q\n')
f('C07','setext headings ending in number signs lose them when rendered again by po2md: a ###',"rewrite(rewrite('a ###\\n===\\n'))",'# a ### #\n')
f('C08','a pending disable-next-block is consumed by a code block which is not extracted in po2md, but not in md2po',"po2md('<!-- mdpo-disable-next-block -->\\n\\n```\\nx\\n```\\n\\na\\n', [['', 'a', 'A']])",'```\nx\n```\n\na\n')
f('C09','a pending context is consumed by a code block which is not extracted in po2md, but not in md2po',"po2md('<!-- mdpo-context k -->\\n\\n```\\nx\\n```\\n\\na\\n', [['k', 'a', 'A']])",'```\nx\n```\n\nA\n')
f('C18','commands after the text of an item of a tight list are not processed by mdpo2html',"html('<ul><li>a\\n<!-- mdpo-disable -->\\n</li><li>b</li></ul>', [['', 'b', 'X']])",'<ul><li>a\n</li><li>b</li></ul>')
f('C18','messages with inline HTML are not found by mdpo2html: a <b>c</b>',"html('<p>a <b>c</b></p>', [['', 'a <b>c</b>', 'X']])",'<p>X</p>')
f('C19','wikilinks with text are broken inside their target by po2md: [[aaaa bbbb|c]]',"rewrite('xxxxxx [[aaaa bbbb|c]]\\n', wrapwidth=14)",'xxxxxx\n[[aaaa bbbb|c]]\n')
f('C19','targets of links around images are broken by po2md after their question marks: [![a](b)](/?a=b)',"rewrite('[![a](b)](/?a=b)\\n', wrapwidth=10)",'[![a](b)](/?a=b)\n')
f('C19','titles of links are broken by po2md between their escaped backslashes: [aaaa](b "t \\\\ x")',"rewrite('[aaaa](b \"t \\\\\\\\ x\")\\n', wrapwidth=11)",'[aaaa](b "t\n\\\\ x")\n')
f('C19','md2po fails with wrap widths lower than 3',"exit_code('md2po', ['a.md', '-q', '-s', '-p', 'a.po', '-w', '2'], a_md='a b c d\\n')",0)
fixed=[]
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','a16f29d..HEAD'],capture_output=True,text=True).stdout.splitlines()
P={
"escape texts which would start other blocks in po2md": "C06",
"keep spaces at the end of code blocks in po2md": "C06",
"keep empty lines of code blocks without other contents in po2md": "C06",
"keep HTML blocks which have commands among their lines in po2md": "C05",
"remove indented commands from HTML blocks in po2md": "C06",
"do not create hard line breaks wrapping after backslashes in po2md": "C19",
 "do not skip entries while marking obsoletes": "C02",
 "do not compare msgstrs looking for not found messages": "C02",
 "do not keep revived messages duplicated as obsoletes": "C01",
 "keep reviewed state of revived link references": "C01",
 "repair PO checks of po2md and mdpo2html CLIs": "C14",
 "take into account nesting of ordered lists in md2po": "C04",
 "take into account that lists items are left in md2po": "C04",
 "do not merge code blocks of list items with their text": "C04",
 "do not write empty lines after nested lists in po2md": "C06",
 "do not merge ordered lists nested in unordered ones with their items": "C06",
 "indent all lines of code blocks inside list items in po2md": "C06",
 "do not crash translating documents starting with empty quotes": "C05",
 "keep code blocks inside quotes in po2md": "C06",
 "keep blocks after tables inside quotes separated in po2md": "C06",
 "do not lose HTML blocks at the end of the content in po2md": "C05",
 "support strikethrough spans in po2md": "C05",
 "translate messages with links broken in several lines in po2md": "C07",
 "do not lose part of the text of images": "C04",
 "keep code spans starting or ending with backticks valid": "C04",
 "do not propagate commands of a file to the next ones in md2po": "C13",
 "take into account PO files wrapwidth in md2po2md": "C17",
 "translate using md4c extensions passed to md2po2md": "C17",
 "do not extract titles of disabled blocks in plaintext mode": "C21",
 "do not crash with contexts not found in PO files in mdpo2html": "C18",
 "do not override translations with empty ones of other PO files": "C24",
 "support empty targets and targets with entities in spans": "C05",
 "do not wrap headers in po2md": "C06",
 "join lines of setext headers in messages": "C04",
 "respect enable-next-block with disable-next-block in mdpo2html": "C08",
 "consume next block commands with included comments in po2md": "C08",
 "translate ordered lists in mdpo2html": "C18",
 "do not confuse untitled links with titled link references": "C11",
 "keep full info strings of fenced code blocks in po2md": "C06",
 "write fences of code blocks long enough in po2md": "C06",
 "keep trailing empty lines of code blocks in po2md": "C06",
 "do not fail with spans inside alternative texts of images": "C04",
 "support code spans broken in several lines or inside links": "C04",
 "support wikilinks with texts broken in several parts": "C05",
 "join lines of titles of links and images": "C04",
 "support underline spans": "C05",
 "do not crash in po2md without latex_math_spans extension": "C05",
 "write HTML blocks before the blocks that follow them in po2md": "C05",
 "wrap texts of list items followed by code blocks in po2md": "C06",
 "keep paragraphs after nested lists inside their items in po2md": "C06",
 "keep ordered lists nested in lists inside quotes in po2md": "C06",
 "do not write empty lines after nested lists inside quotes in po2md": "C06",
 "keep contents of lists inside quotes in po2md": "C06",
 "keep HTML blocks inside quotes in po2md": "C06",
 "keep quotes nested in other quotes in po2md": "C06",
 "keep headers, breaks, HTML and quotes inside list items in po2md": "C06",
 "do not merge texts of list items with the blocks that follow them in md2po": "C04",
 "keep tables and blocks of lists inside quotes in po2md": "C06",
 "do not indent HTML of list items again in each po2md rendering": "C06",
 "keep texts of list items after other blocks inside them in po2md": "C06",
 "keep commands pending until the next message in md2po": "C08",
 "keep commands pending until the next message in po2md": "C08",
 "use the default msgstr also for titles in plaintext mode": "C21",
 "include the X-Generator header also in plaintext mode": "C26",
 "report only the fuzzy flag as fuzzy": "C22",
 "report empty msgstrs not followed by an empty line": "C22",
 "unescape every escaped separator in keys of pairs": "C25",
 "reject every not a number value and do not truncate wrap widths to 0": "C25",
 "keep the order of PO files given to the CLIs": "C24",
 "do not take the context '0' for no context": "C20",
 "do not start other blocks wrapping paragraphs in po2md": "C19",
 "import the module used to load events from files": "C16",
 "do not forget events passed several times to the CLIs": "C15",
 "do not take other modules for the files of events": "C16",
 "do not join messages skipped by events with the next ones": "C16",
 "accept the extension placeholder in output schemas of md2po2md": "C17",
 "do not take languages named as files for files in md2po2md": "C17",
 "translate all the paths passed to md2po2md": "C17",
 "read existing files whose paths look like globs": "C23",
 "create the directories of documents written by md2po2md": "C17",
 "keep the texts without translation and the structure of HTML files in mdpo2html": "C18",
 "keep declarations, processing instructions and unclosed tags in mdpo2html": "C18",
 "remove all mdpo commands and keep other comments in mdpo2html": "C18",
 "translate all the referenced links in mdpo2html": "C18",
 "translate referenced images in texts without links in mdpo2html": "C18",
 "do not join code blocks with previous tables in list items in po2md": "C06",
 "keep titles with quotes of link reference definitions": "C11",
 "do not take lines of other blocks for link reference definitions": "C11",
 "do not start HTML blocks wrapping paragraphs in po2md": "C19",
 "keep task marks of ordered lists in po2md": "C06",
 "keep indented code blocks inside list items in po2md": "C06",
 "keep targets with spaces of inline links and images": "C06",
 "update locations and comments of the entries of existing catalogs": "C12",
 "keep escaped characters of texts of links": "C05",
 "keep targets with unbalanced parentheses of inline links and images": "C05",
 "keep titles of inline links and images with empty targets": "C05",
 "keep mathematics inside texts of links in po2md": "C05",
 "keep spaces at the edges of code spans": "C05",
 "don't lose link references which are also text of other blocks": "C11",
 "keep the order of HTML around blocks and find commands after it in mdpo2html": "C18",
 "translate texts starting or ending with HTML tags in mdpo2html": "C18",
 "translate messages with character references in mdpo2html": "C18",
}
for l in log:
    h,s=l.split(' ',1)
    s=s.removeprefix('fix: ')
    if s in P: fixed.append(f'fixed: property={P[s]} {h} {s}')
    elif P: print('NO PROP',s)
json.dump(dict(findings=F,fixed=fixed),open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'),'w'),indent=1,ensure_ascii=False)
