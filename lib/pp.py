"""Readable rendering of AST nodes for reports."""


def pe(n, T=None):
    if n is None:
        return ''
    k = n.get('k')
    c = n.get('c', [])
    if k == 'Lit':
        return str(n.get('cv'))
    if k == 'Float':
        return str(n['fv'])
    if k == 'Str':
        return '"%s"' % n['s']
    if k == 'Null0':
        return 'nullptr'
    if k == 'Var':
        return n['n']
    if k == 'EnumC':
        return '::'.join(n['q'].split('::')[-2:])
    if k in ('Global', 'Ref'):
        return n['q'].split('::')[-1]
    if k == 'FnRef':
        return n['q']
    if k == 'This':
        return 'this'
    if k == 'Member':
        b = pe(c[0])
        return n['n'] if b == 'this' else b + ('->' if n.get('arrow') else '.') + n['n']
    if k == 'Call':
        return (n['q'].split('::')[-1] if 'q' in n else pe(n.get('callee'))) + '(' + ', '.join(map(pe, c)) + ')'
    if k == 'MCall':
        b = pe(n.get('obj'))
        f = n['q'].split('::')[-1] if 'q' in n else pe(n.get('callee'))
        return ('' if b == 'this' else b + ('->' if n.get('arrow') else '.')) + f + '(' + ', '.join(map(pe, c)) + ')'
    if k == 'OCall':
        op = n['op']
        if op in ('()', '[]'):
            return pe(c[0]) + op[0] + ', '.join(map(pe, c[1:])) + op[1]
        if op == '->':
            return pe(c[0])
        if len(c) == 1:
            return op + pe(c[0])
        return pe(c[0]) + ' ' + op + ' ' + pe(c[1])
    if k in ('Bin', 'Assign', 'CAssign'):
        return '(' + pe(c[0]) + ' ' + n['op'] + ' ' + pe(c[1]) + ')'
    if k == 'Un':
        return pe(c[0]) + n['op'] if n.get('post') else n['op'] + pe(c[0])
    if k == 'Cast':
        return pe(c[0])
    if k == 'Cond':
        return '(' + pe(c[0]) + ' ? ' + pe(c[1]) + ' : ' + pe(c[2]) + ')'
    if k == 'Index':
        return pe(c[0]) + '[' + pe(c[1]) + ']'
    if k == 'Ctor':
        if len(c) == 1:
            return pe(c[0])
        return n['q'].split('::')[-1] + '{' + ', '.join(map(pe, c)) + '}'
    if k in ('DefArg', 'DefInit'):
        return pe(c[0])
    if k == 'Throw':
        return 'throw ' + (pe(c[0]) if c and c[0] else '')
    if k == 'Lambda':
        return '[lambda]'
    if k == 'InitList':
        return '{' + ', '.join(map(pe, c)) + '}'
    return str(k) + '(' + ', '.join(pe(x) for x in c if x) + ')'
