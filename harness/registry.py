"""Property -> (module, function)."""
CHECKS = {
    'C01': ('lifecycle', 'c01'),
    'C02': ('lifecycle', 'c02'),
    'C03': ('lifecycle', 'c03'),
    'C04': ('extraction', 'c04'),
    'C05': ('translation', 'c05'),
    'C06': ('translation', 'c06'),
    'C07': ('translation', 'c07'),
    'C08': ('commands', 'c08'),
    'C09': ('commands', 'c09'),
    'C10': ('commands', 'c10'),
    'C11': ('translation', 'c11'),
    'C12': ('extraction', 'c12'),
    'C13': ('extraction', 'c13'),
    'C26': ('extraction', 'c26'),
    'C21': ('extraction', 'c21'),
    'C20': ('commands', 'c20'),
    'C22': ('pofiles', 'c22'),
    'C23': ('values', 'c23'),
    'C24': ('values', 'c24'),
    'C25': ('values', 'c25'),
    'C14': ('cli', 'c14'),
    'C15': ('cli', 'c15'),
    'C16': ('events', 'c16'),
    'C17': ('cli', 'c17'),
    'C18': ('html', 'c18'),
    'C19': ('translation', 'c19'),
}


REPLAY = ('replay of the behaviours that TLC generates on the real code '
          '(API and CLIs)')
TRACE = ('validation by TLC of traces recorded from the real code against '
         'the specification')
_BOUND = ('Exhaustive within the bounds of the model (see DESIGN.md); longer '
          'behaviours by TLC simulation. ')
_TRUST = 'Trusts TLC, polib and md4c (for reading what the tools write).'

# property -> (binding, level note)
NOTES = {
    **{i: (REPLAY, _BOUND + _TRUST)
       for i in ('C01', 'C02', 'C03', 'C08', 'C09', 'C10', 'C20', 'C22', 'C23',
                 'C24', 'C25', 'C14', 'C15', 'C17', 'C18')},
    **{i: (TRACE, _BOUND + _TRUST) for i in ('C04', 'C05', 'C06', 'C07', 'C11', 'C12', 'C13', 'C16', 'C19',
                            'C21', 'C26')},
}
