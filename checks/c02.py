"""C02: in-place add/remove/replace vs RFC 6902 model; rejected edits are atomic."""
import copy
from lib import gen
from lib.harness import check, Violation
from lib.models import all_paths, ptr_eval, ptr_str, patch_apply, Fail, ident, jtype
from checks.treemon import verify, node_at, touch
from checks.c01 import setp, shape

RULE = ('random in-place add/remove/replace with valid and hostile pointers at random nodes, compared with the RFC 6902 model; '
        'bad item mutations; after each rejected call the whole tree is re-verified. State: (operation, outcome, target shape)')
REQUIRED = {'applied': 1500, 'rejected': 1500, 'bad item edits': 1500, 'trees checked': 3000}


class Odd:
    pass


def patchops(ctx, r):
    from jschon import JSON, JSONPointer, JSONPatch
    from jschon.exc import JSONError
    model = gen.value(r, 3, 4, small=r.random() < .6, p_scalar=.05) if r.random() < .96 else gen.long_array(r)
    root = JSON(copy.deepcopy(model))
    log = [repr(model)]
    ctx.store['last'] = log
    for _ in range(r.randint(1, 8)):
        keys = r.choice(list(all_paths(model))) if r.random() < .6 else ()
        node, mv = node_at(root, keys), ptr_eval(model, keys)
        op = r.choice(['add', 'remove', 'replace'])
        pk = gen.pointer_keys(r, mv, hostile=.55)
        if op == 'add' and r.random() < .4:
            base = gen.pointer_keys(r, mv, hostile=0)
            sub = ptr_eval(mv, base)
            if isinstance(sub, list):
                pk = base + [r.choice(['-', str(len(sub)), '0', str(len(sub) + 1), '-1', '00', '+0', ' 0', '0 ', '0_0', '٠', gen.fake_index(r, len(sub) + 1), str(r.randint(0, len(sub) + 1))])]
            else:
                pk = base + [r.choice(['-', '0', '', 'a', 'new', '~'])]
        ps = ptr_str(pk)
        val = gen.value(r, 2, 3)
        if r.random() < .5:
            touch(r, root)
        d = {'op': op, 'path': ps, 'value': val}
        try:
            want = patch_apply(mv, d)
        except Fail:
            want = Fail
        log.append(f'{ptr_str(keys)} .{op}({ps!r}, {val!r}) expect {"reject" if want is Fail else "ok"}')
        arg = JSONPointer(ps) if r.random() < .5 else ps
        obj = JSON(val) if r.random() < .4 else copy.deepcopy(val)
        try:
            getattr(node, op)(*((arg,) if op == 'remove' else (arg, obj)))
            got = 'ok'
        except JSONError:
            got = 'reject'
        except Exception as e:
            raise Violation(f'{op} raised {type(e).__name__} instead of JSONError', history=log, error=repr(e))
        check((want is Fail) == (got == 'reject'), f'{op} outcome differs from RFC 6902: {got}', history=log, doc=model)
        if want is not Fail:
            if not ident(want, ptr_eval(model, keys)) and r.random() < .3:
                # and the functional patch agrees
                p = JSONPatch({k: v for k, v in d.items() if not (op == 'remove' and k == 'value')})
                check(ident(p.evaluate(copy.deepcopy(mv)), want), 'functional patch disagrees with RFC 6902', history=log)
            model = setp(model, keys, want)
            ctx.event('applied')
        else:
            ctx.event('rejected')
        ctx.state(op, got, shape(mv), pk[-1:] and pk[-1][:3])
        verify(ctx, root, model)
    ctx.sample(log)


def baditems(ctx, r):
    """Item assignment/deletion/insert/pop that must be rejected changes nothing."""
    from jschon import JSON
    model = gen.container(r, 3, 4, small=True)
    root = JSON(copy.deepcopy(model))
    log = [repr(model)]
    ctx.store['last'] = log
    for _ in range(6):
        conts = [p for p in all_paths(model) if isinstance(ptr_eval(model, p), (list, dict))]
        keys = r.choice(conts)
        node, mv = node_at(root, keys), ptr_eval(model, keys)
        bad = r.choice([Odd(), {1, 2}, object(), [1, Odd()], {'a': {'b': Odd()}}, [[], [{}, {3}]], 1j])
        if r.random() < .5:
            touch(r, root)
        if isinstance(mv, list):
            n = len(mv)
            out = r.choice([n, n + 1, -n - 1, -n - 2, 10**9, -10**9])
            f, d = r.choice([
                (lambda: node.__setitem__(out, 'X'), f'[{out}]=X'),
                (lambda: node.__delitem__(out), f'del [{out}]'),
                (lambda: node.pop(out), f'pop({out})'),
                (lambda: node.insert(r.randint(0, n), bad), 'insert bad'),
                (lambda: node.append(bad), 'append bad'),
                (lambda: node.__setitem__(r.randrange(n) if n else 0, bad), 'set bad'),
                (lambda: node.add('/-', bad), 'add bad'),
                (lambda: node.add('', bad), 'add whole bad'),
                (lambda: node.replace('', bad), 'replace whole bad'),
                (lambda: node.__setitem__('a', 1), 'set str key'),
                (lambda: node.__delitem__('0'), 'del str key'),
                (lambda: node.replace('/0' if n else '/9', bad), 'replace bad'),
            ])
            if d == 'pop' and n == 0:
                pass
        else:
            f, d = r.choice([
                (lambda: node.__delitem__('\x01nope'), 'del missing key'),
                (lambda: node.pop('\x01nope'), 'pop missing key'),
                (lambda: node.__setitem__(r.choice(list(mv)) if mv and r.random() < .5 else 'new', bad), 'set bad'),
                (lambda: node.add('/new', bad), 'add bad'),
                (lambda: node.add('', bad), 'add whole bad'),
                (lambda: node.replace('', bad), 'replace whole bad'),
                (lambda: node.replace('/' + 'nope\x01', 1), 'replace missing'),
                (lambda: node.__delitem__(0), 'del int key'),
                (lambda: node.insert(0, 1), 'insert in object'),
                (lambda: node.append(1), 'append to object'),
            ])
        log.append(f'{ptr_str(keys)} {d}')
        try:
            f()
        except Exception as e:
            ctx.event('bad item edits')
            ctx.state(d.split('(')[0][:8], type(e).__name__, shape(mv))
        else:
            raise Violation('an impossible mutation was accepted', history=log, now=root.dumps())
        verify(ctx, root, model)
    ctx.sample(log)


UNITS = {'patchops': (patchops, 24000, 120000), 'baditems': (baditems, 12000, 50000)}
