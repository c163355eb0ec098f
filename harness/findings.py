"""Known findings: genuine defects recorded in known_findings.json, each one a
specific input and what the property wants for it.  They are out of the domain
of the models; this runs each input and reports it while it still fails.

A finding has the property, what fails, the call (an expression with the
functions of ``tools``) and what the property wants of it.
"""
from harness.core import run_real


def write(path, content):
    with open(path, 'w', encoding='utf-8') as f:
        f.write(content)
    return path


def tools():
    import polib
    from mdpo.md2po import markdown_to_pofile
    from mdpo.mdpo2html import markdown_pofile_to_html
    from mdpo.po2md import pofile_to_markdown

    from harness.values import cli

    def catalog(entries):
        po = polib.POFile()
        for ctx, msgid, msgstr in entries:
            po.append(polib.POEntry(msgid=msgid, msgstr=msgstr,
                                    msgctxt=ctx or None))
        return write('catalog.po', str(po))

    def md2po(content, **opts):
        return [[e.msgctxt or '', e.msgid]
                for e in markdown_to_pofile(content, **opts)]

    def po2md(content, entries, **opts):
        return pofile_to_markdown(content, catalog(entries), **opts)

    def rewrite(content, **opts):
        """po2md with the catalog that md2po extracts."""
        write('doc.po', str(markdown_to_pofile(content)))
        return pofile_to_markdown(content, 'doc.po', **opts)

    def html(content, entries, **opts):
        return markdown_pofile_to_html(content, catalog(entries), **opts)

    def locations(*contents):
        """Of the entries after extracting the contents one after other."""
        for content in contents:
            write('doc.md', content)
            po = markdown_to_pofile(['doc.md'], po_filepath='doc.po',
                                    save=True)
        return [[e.msgid, [list(x) for x in e.occurrences]] for e in po
                if not e.obsolete]

    def exit_code(module, args, **files):
        for name, content in files.items():
            write(name.replace('_', '.'), content)
        return cli(module, args)[0]

    def check_twice(content, po):
        write('doc.md', content)
        write('doc.po', po)
        return [cli('md2po', ['doc.md', '-q', '-s', '-p', 'doc.po',
                              '--check'])[0] for _ in range(2)]

    return locals()


def run(f):
    try:
        return eval(f['call'], tools())
    except Exception as e:
        return f'{type(e).__name__}: {e}'


def probe(chk):
    """Report the findings of the property which still fail."""
    for f, got in zip(chk.known, run_real(run, chk.known)):
        if got != ('ok', f['want']):
            chk.known_seen[f['what']] = f
