COMMON = ('Abstract interpretation of the current source: byte contents, keys and integers are arbitrary, lengths and operation '
          'sequences are enumerated. Trusts the interpreter model of Python semantics and the normal forms (gsa/). A difference is '
          'reported only with a separating valuation of the terms.')
AI = 'abstract interpretation (value numbering over GF(2)/Herbrand terms, joins, trace partitioning on lengths): '
TECH.update({
    'C03': AI + 'state equality across read-only operations',
    'C10': AI + 'digest terms of all splittings equal',
})
TECH.update({
    'C11': AI + 'split calls equal one call; iv/counter equal the mode equation',
    'C12': AI + 'decrypt(encrypt(x)) normalises to x',
    'C13': AI + 'block decrypt(encrypt(b)) normalises to b for unknown key and block',
    'C14': AI + 'counter terms from an arbitrary full-width counter',
    'C15': AI + 'normal form equal to the definition in the standard',
    'C16': AI + 'normal form equal to the definition in the standard, induction over blocks',
    'C22': AI + 'MAC term equal to the definition in the standard',
    'C23': AI + 'mode terms equal to the equations of the standard',
})
TECH.update({
    'C19': AI + 'HMAC term equal to the definition over the hash term',
    'C20': AI + 'derived key term equal to the definition over the HMAC term; long runs by constant propagation',
    'C21': AI + 'sequence term equal to the definition; arbitrary and boundary counters',
})
TECH['C18'] = AI + 'DER terms for unknown arcs of enumerated bit lengths; registry and algorithm identifiers compared'
TECH.update({
    'C04': AI + 'terms of the original and the copies equal after operations on either side',
    'C06': AI + 'terms after reset equal to those of a new object',
})
TECH.update({
    'C17': 'constant propagation of the curve table and the constructor; number-theoretic conditions decided on the constants',
    'C24': 'abstract interpretation over a group domain (multiples of abstract points, chord and tangent formulas in normal form), '
           'path facts, constant propagation of boundary signatures',
    'C25': 'abstract interpretation over a group domain; dataflow of key, nonce and random draws; constant propagation of boundary values',
    'C27': AI + 'facts of accepting paths of the constructor; constant propagation of parameter sets violating one condition',
    'C28': 'abstract interpretation over a group domain (chord and tangent formulas modulo the curve equation in normal form); constant '
           'propagation of boundary scalars',
})
TECH['C29'] = 'dataflow of every branch condition and comparison on secret-derived contents; ' + AI + 'result equal to the defining predicate'

TECH.update({
    'C01': AI + 'ownership of caller buffers, content before and after every call',
    'C02': 'aliasing analysis over an abstract heap, confirmed by terms of later results: ' + AI + 'shared containers replaced by unknowns',
})
TECH['C05'] = ('effect analysis of package-owned state (module tables, defaults, class attributes), confirmed by terms of the results of '
               'other objects: ') + AI.rstrip(': ')

TECH.update({
    'C07': 'information flow (dependency sets per term, declassified at block-cipher results on data), confirmed by a twin valuation of '
           'the terms: ' + AI.rstrip(': '),
    'C08': 'typestate of partially built objects (every abandonment point of every constructor, then its finaliser): ' + AI.rstrip(': '),
    'C09': AI + 'outcome of every call of a table of argument types and lengths (accepted, or documented class and message)',
})

TECH['C26'] = ('recurrent-state detection on constant-propagated boundary runs (a repeated complete state at a loop head never ends), bound on '
               'turns, recursion depth, inventory of loops and recursions; ' + AI.rstrip(': ') + ' for unknown contents')
