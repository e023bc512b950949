"""Random RFC 6902 operations against a document, with hostile shares."""
import copy
from lib import gen
from lib.models import all_paths, ptr_eval, ptr_str, is_index

HOSTILE_IDX = ['-', '-1', '01', '00', '+1', ' 0', '0 ', '1.0', '0_0', '٠', '²', '', '999', '1', '2', '3', '-0', '9' * 30, '9' * 4400, 'a', '０']


def path_for(r, doc, op, hostile):
    paths = list(all_paths(doc))
    if op in ('add', 'dest'):
        conts = [p for p in paths if isinstance(ptr_eval(doc, p), (list, dict))]
        if conts and r.random() > .06:
            p = r.choice(conts)
            v = ptr_eval(doc, p)
            if isinstance(v, list):
                t = r.choice(['-', str(len(v)), str(r.randint(0, len(v))), str(r.randint(0, len(v)))])
            else:
                t = r.choice(list(v)) if v and r.random() < .4 else gen.key(r)
            ks = list(p) + [t]
        else:
            ks = []
    else:
        ks = list(r.choice(paths)) if r.random() < .95 else []
    if r.random() < hostile:
        x = r.random()
        if ks and x < .5:
            j = r.choice([-1, -1, r.randrange(len(ks))])
            ks[j] = r.choice(HOSTILE_IDX) if r.random() < .7 or not is_index(ks[j]) else gen.fake_index(r, int(ks[j]) + 1)
        elif x < .8:
            ks = ks + [r.choice(HOSTILE_IDX + ['a', '0'])]
        else:
            ks = gen.pointer_keys(r, doc, hostile=.9)
    return ptr_str(ks)


def operation(r, doc, hostile=.12):
    op = r.choice(['add', 'add', 'remove', 'replace', 'move', 'copy', 'test'])
    d = {'op': op}
    if op in ('add', 'replace'):
        d['path'] = path_for(r, doc, 'add' if op == 'add' else 'old', hostile)
        d['value'] = gen.value(r, 2, 3)
    elif op == 'remove':
        d['path'] = path_for(r, doc, 'old', hostile)
    elif op in ('move', 'copy'):
        d['from'] = path_for(r, doc, 'old', hostile)
        d['path'] = path_for(r, doc, 'dest', hostile)
        x = r.random()
        if x < .08:
            d['path'] = d['from']
        elif x < .16:
            d['path'] = d['from'] + r.choice(['/0', '/a', '/-', '/', '/a/0'])
        elif x < .2:
            d['path'] = (d['from'] or '/') + 'x'      # textual but not token prefix
        elif x < .24 and '/' in d['from']:
            d['path'] = d['from'][:d['from'].rindex('/')]
    else:
        d['path'] = path_for(r, doc, 'old', hostile)
        try:
            v = copy.deepcopy(ptr_eval(doc, [k.replace('~1', '/').replace('~0', '~') for k in d['path'].split('/')[1:]]))
        except Exception:
            v = gen.value(r, 1, 2)
        d['value'] = v if r.random() < .7 else gen.tweak(r, v)
    return d
