COMMON = ('Within the bounds listed in the evidence file every path of the real code is explored and decided by z3 '
          'for all values of the symbolic inputs; nothing is claimed outside them. Trusted: the in-memory '
          'instrumentation (symex/), z3, the reference semantics in the check. ')
NOTES = {
    'C01': COMMON + 'Token values and predicate outcomes are symbolic; grammars are enumerated up to a size as choices of the engine.',
    'C02': COMMON + 'Token values and predicate outcomes are symbolic; grammars are enumerated up to a size as choices of the engine.',
    'C03': COMMON + 'Presence of every candidate span is symbolic; resolve_spans is also run on symbolic integer spans.',
    'C04': COMMON + 'Bounds of the quantifiers and token values are symbolic; nestings are enumerated up to a depth. One known finding.',
    'C05': COMMON + 'Token values and predicate outcomes are symbolic; the derivation is observed through facts.',
    'C06': COMMON + 'Token values, relation outcomes and reuse are symbolic or engine choices; grammars are enumerated up to a size.',
    'C07': COMMON + 'Every character of the text is a symbolic code point of the BMP; the real regular expressions are encoded.',
    'C08': COMMON + 'Histories of reconfiguration are choices of the engine, the text is symbolic.',
    'C09': COMMON + 'Positions, gaps and values of the tokens are symbolic.',
    'C10': COMMON + 'Token value, type and parameters are symbolic.',
    'C11': COMMON + 'Truth of the predicates, grammemes of the forms and words are symbolic; shapes are enumerated to a depth.',
    'C12': COMMON + 'The grammemes of both forms are fully symbolic sets.',
    'C13': COMMON + 'The relations are arbitrary symmetric tables whose entries are symbolic; structures of phrases are listed.',
    'C14': COMMON + 'Which parts occur, the words and the gaps are symbolic; interpretation trees are enumerated up to a size.',
    'C15': COMMON + 'Which parts occur, the words and the gaps are symbolic; interpretation trees and normalizers are enumerated.',
    'C16': COMMON + 'Words, normal forms, grammemes and possible inflections are symbolic; chains of normalizers are enumerated.',
    'C17': COMMON + 'Token values and normal forms are symbolic; dictionaries are enumerated over a small vocabulary.',
    'C18': COMMON + 'Histories of constructions, parses and reads are choices of the engine; texts and relations are symbolic.',
    'C19': COMMON + 'Which parts occur, which items are marked and the agreement of the words are symbolic or engine choices.',
    'C20': COMMON + 'Characters of the labels are symbolic; structures are enumerated up to a size.',
    'C21': COMMON + 'Attribute values are symbolic integers, strings and sets; hash is an uninterpreted function of the value.',
    'C22': COMMON + 'Kinds of the arguments are choices of the engine, names and grammemes are symbolic.',
    'C23': COMMON + 'Tags and token values are symbolic.',
    'C24': COMMON + 'The raw analyzer is a stub whose answers (words, normal forms, grammemes, inflections) are symbolic.',
    'C26': COMMON + 'Token values, predicate outcomes and agreements are symbolic; derivations are observed through facts and compared with all those of a top-down enumeration.',
    'C27': COMMON + 'Equality of the two languages is decided by z3 for symbolic tokens; grammars are enumerated up to a size.',
    'C28': COMMON + 'The real regular expressions are encoded; texts are templates with symbolic characters.',
    'C29': COMMON + 'The place where a thread is stopped is a choice of the engine, the words are symbolic; threads are switched at calls of functions of yargy only, at most as often as stated.',
}
NOT_APPLICABLE = {
    'C25': 'Termination and work bounds for every input length are unbounded claims: '
           'a bounded path exploration can neither show termination nor a polynomial bound.',
}
