"""Which engine parts and which kinds of disagreement decide which property."""

# kinds that make every E1 property undecided: reported as violations (fail closed)
ALWAYS = ('unsupported', 'internal', 'panic', 'diverge')

# property -> (kinds, hand tags (None: all), random families with a weight)
E1 = {
    'C01': (('lang',), None, {'lang': 3, 'default': 1, 'mixed': 1, 'api': 1, 'optional': 1, 'class': 1}),
    'C02': (('value', 'lang', 'result'), None, {'lang': 2, 'default': 1, 'optional': 1, 'class': 1, 'xtoken': 1, 'prec': 1}),
    'C03': (('lang',), {'lang', 'prec', 'class', 'optional', 'default'}, {'lang': 2, 'prec': 2, 'class': 1}),
    'C04': (('lang', 'value'), {'prec'}, {'prec': 6}),
    'C05': (('lang', 'value'), {'fallback'}, {'fallback': 4, 'mixed': 2}),
    'C06': (('lang', 'value'), {'wildcard'}, {'wildcard': 4, 'mixed': 2}),
    'C07': (('lang', 'value'), {'class'}, {'class': 6}),
    'C08': (('lang', 'value'), {'optional', 'default'}, {'optional': 4, 'default': 2, 'mixed': 1}),
    'C09': (('ec', 'lang', 'recover', 'fail', 'errpass'), {'err0', 'lang', 'prec', 'fallback', 'wildcard', 'deflt'},
            {'lang': 3, 'api': 1, 'fallback': 1, 'prec': 1}),
    'C10': (('recover', 'fail', 'lang', 'value', 'errpass', 'syntok', 'custody', 'ec'), {'errsym'}, {'error': 6}),
    'C11': (('status', 'result', 'lang'), None, {'lang': 1, 'error': 1, 'limit': 1, 'api': 1}),
    'C12': (('overflow', 'ovftok', 'lang', 'errpass'), {'limit'}, {'limit': 6}),
    'C13': (('expected',), None, {'lang': 2, 'fallback': 2, 'wildcard': 1, 'prec': 1, 'error': 1, 'xtoken': 1}),
    'C14': (('syntok', 'ovftok'), None, {'lang': 1, 'fallback': 2, 'wildcard': 1, 'error': 1, 'limit': 1, 'xtoken': 1, 'class': 1}),
    'C15': (('extra', 'api', 'result'), None, {'lang': 1, 'error': 1, 'limit': 1, 'api': 1, 'cstack': 1}),
    'C16': (('value', 'api', 'tokm', 'syntok'), {'xtoken'}, {'xtoken': 6}),
    'C17': (('api',), None, {'api': 2, 'xtoken': 1, 'class': 1, 'lang': 1}),
    'C22': (('custody', 'value', 'extra', 'errpass'), None, {'lang': 1, 'error': 2, 'limit': 2, 'optional': 1, 'xtoken': 1, 'cstack': 1}),
    'C23': (('lang', 'value', 'expected', 'syntok', 'api'), set(), {}),
    'C25': (('lang', 'value', 'custody', 'overflow'), {'cstack'}, {'cstack': 6}),
    'C26': (('errpass', 'status'), None, {'lang': 1, 'error': 2, 'limit': 1, 'api': 2}),
    'C27': (('lang', 'value'), set(), {}),
    'C28': (('linear',), set(), {}),
}

LEVEL = {}
TITLE = {}
