"""Scenarios for memory obligations: small integers live in a word, so a lost temporary only shows with large ones."""
BIG = 10 ** 60 + 7


def big_elem(t):
    n, _, d = t.partition('/')
    ns = [int(x) for x in n.split(',')]
    ns = [x * BIG if x else 0 for x in ns]
    if not any(ns):
        ns[0] = BIG
    return ','.join(map(str, ns)) + '/' + str(int(d or 1) * (3 ** 90))


def big_q(t):
    n, _, d = t.partition('/')
    return '%d/%d' % ((int(n) or 1) * BIG, int(d or 1) * 7 ** 50)


def variants(c):
    out = [dict(c, prec=512)] if 'prec' in c else [dict(c)]
    d = dict(out[0])
    for k in list(d):
        if k + 'b' in d:
            d[k] = big_elem(d[k])
            d[k + 'b'] = 'default'
    for k in ('q',):
        if k in d and '/' in str(d[k]):
            d[k] = big_q(d[k])
    for k in ('z', 'n'):
        if k in d and d.get('op', '').endswith(('fmpz', 'mpz')):
            d[k] = str((int(d[k]) or 1) * BIG)
    if 'p' in d:
        d['p'] = 700
    d['prec'] = 700
    if 'emb' in d:
        out.append(dict(d, emb='default') if c.get('op') not in ('newton', 'bisect', 'refine', 'cond_poly', 'unique', 'field_init', 'equal_fields', 'polyeval') else d)
    else:
        out.append(d)
    if 'pol' in c and 'emb' not in c:
        # no field: the polynomial itself is large
        ps = [int(x) for x in c['pol'].split(',')]
        out.append(dict(d, pol=','.join(str(x * BIG) for x in ps)))
        out.append(dict(d, pol=','.join(str(x * BIG ** i) for i, x in enumerate(ps))))
    elif 'pol' in c and c.get('op') in ('unique', 'polyeval', 'embeddings', 'field_init', 'field_init_set', 'equal_fields', 'refine', 'newton', 'bisect', 'cond_poly'):
        ps = [int(x) for x in c['pol'].split(',')]
        e = dict(d, pol=','.join(str(x * BIG) for x in ps))
        if 'pol2' in e:
            e['pol2'] = ','.join(str(int(x) * BIG) for x in e['pol2'].split(','))
        out.append(e)
    return out
