"""C04: serialization round trips; non-JSON constants; files are UTF-8."""
import copy, json, os, subprocess, sys
from lib import gen
from lib.harness import check, Violation
from lib.models import ident, jeq, jtype, all_paths, ptr_eval
from checks.treemon import verify, node_at

RULE = ('random values through dumps/str/repr/loads/dumpf/loadf and after mutations, compared with the standard json module; '
        'malformed and NaN/Infinity texts; files written/read in a subprocess under a C locale. State: shape of the value')
REQUIRED = {'round trips': 2000, 'file round trips': 300, 'rejected texts': 1500, 'locale runs': 1, 'unserializable': 300, 'non-UTF-8 files': 300, 'large files': 60, 'unpaired surrogates': 300, 'remote loaded': 500, 'remote refused': 150}


def textgen(r, v):
    """An arbitrary JSON text for v (whitespace, escapes, ordering kept)."""
    ws = lambda: r.choice(['', '', ' ', '\n', '\t', '\r\n', '  '])
    if isinstance(v, list):
        return '[' + ws() + ','.join(ws() + textgen(r, x) + ws() for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ws() + ','.join(ws() + textgen(r, k) + ws() + ':' + ws() + textgen(r, x) + ws() for k, x in v.items()) + '}'
    if isinstance(v, str):
        return json.dumps(v, ensure_ascii=r.random() < .5)
    return json.dumps(v)


def order(a, b):
    """equal values: is the order of the members the same throughout?"""
    if isinstance(a, list):
        return all(order(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(order(a[k], b[k]) for k in a)
    return True


def roundtrip(ctx, r):
    from jschon import JSON
    v = gen.value(r, 4, 4, p_scalar=.2)
    if r.random() < .05:
        v = gen.deep(r, r.randint(20, 60))
    elif r.random() < .02:
        v = r.choice([gen.wide(r), gen.wide(r), [gen.value(r, 2, 4) for _ in range(200)], {gen.long_str(r): gen.wide(r)}])
    ctx.store['last'] = v
    J = JSON(copy.deepcopy(v))
    t = J.dumps()
    check(ident(json.loads(t), v), 'dumps does not parse back to the value', value=v, text=t)
    check(str(J) == t, 'str() is not the JSON text', value=v)
    K = JSON.loads(t)
    check(ident(K.value, v) and K == J and K.type == jtype(v), 'loads(dumps()) differs', value=v, text=t)
    check(order(K.value, v) and order(json.loads(t), v), 'the order of the members changed', value=v, text=t)
    src = textgen(r, v)
    L = JSON.loads(src)
    check(ident(L.value, json.loads(src)), 'loads differs from a standard parser', text=src, got=L.value)
    check(order(L.value, json.loads(src)), 'the order of the members differs from a standard parser', text=src, got=L.value)
    for _ in range(2):
        check(J.dumps() == t, 'dumps is not repeatable', value=v)
    rp = repr(J)
    check(rp.startswith('JSON(') and ident(eval(rp[5:-1], {}), v), 'repr does not show the value', value=v, got=rp)
    check(ident(J.value, v) and ident(JSON(J.value).value, v), 'JSON(value).value differs', value=v)
    p = r.choice(list(all_paths(v)))
    sub = node_at(J, p)
    check(ident(json.loads(sub.dumps()), ptr_eval(v, p)), 'serialization of a sub-node differs', value=v, at=p)
    ctx.event('round trips')
    ctx.state(jtype(v), len(t) // 5)
    if isinstance(v, (list, dict)) and r.random() < .4:
        # after mutation
        if isinstance(v, list):
            J.insert(0, {'\u00e9': None})
            v.insert(0, {'\u00e9': None})
        else:
            J['\u00e9'] = [1.5, True]
            v['\u00e9'] = [1.5, True]
        check(ident(json.loads(J.dumps()), v), 'stale text after mutation', value=v, text=J.dumps())
        check(ident(JSON.loads(str(J)).value, v), 'stale text after mutation', value=v)
    ctx.sample(t)


def files(ctx, r):
    from jschon import JSON
    v = gen.value(r, 3, 4, p_scalar=.1)
    if r.random() < .04:        # larger than any buffer
        v = r.choice([lambda: [v] * r.choice([600, 3000]), lambda: {f'{i}-é': v for i in range(r.choice([300, 2000]))}, lambda: 'é€\U0001F600x' * r.choice([700, 20000]), lambda: [gen.long_str(r) for _ in range(300)]])()
        ctx.event('large files')
    v = {'v': v, 'k\u00e9\U0001F600': '中\u2028'}
    ctx.store['last'] = v
    d = ctx.store.get('dir') or ctx.store.setdefault('dir', ctx.tmpdir())
    path = os.path.join(d, 'f.json')
    if r.random() < .3:
        with open(path, 'w') as f:
            f.write('x' * 5000)          # an old, longer file is replaced
    import pathlib
    arg = pathlib.Path(path) if r.random() < .5 else path
    J = JSON(copy.deepcopy(v))
    J.dumpf(arg)
    raw = open(path, 'rb').read()
    check(ident(json.loads(raw.decode('utf-8')), v), 'file is not the UTF-8 JSON text of the value', value=v, raw=raw)
    K = JSON.loadf(arg)
    check(ident(K.value, v), 'loadf(dumpf()) differs', value=v, got=K.value)
    check(order(K.value, v) and order(json.loads(raw.decode('utf-8')), v), 'the order of the members changed', value=v, raw=raw)
    src = textgen(r, v)
    with open(path, 'wb') as f:
        f.write(src.encode('utf-8'))
    check(ident(JSON.loadf(path).value, json.loads(src)), 'loadf differs from a standard parser', text=src)
    os.unlink(path)
    ctx.event('file round trips')


BADTEXT = ['NaN', 'Infinity', '-Infinity', '[NaN]', '{"a": Infinity}', '[[-Infinity]]', '{"a":[1,{"b":NaN}]}', '', ' ', '{', '[1,]', "{'a':1}",
           '{"a":1,}', '{a:1}', '01', '+1', '.5', '1.', '[1 2]', '"\n"', '"\\x"', 'tru', 'nul', 'True', 'None', '1 2', '[]]', '{"a"}',
           '{"a":}', '"abc', '[', '"\\u12"', 'nan', 'inf', '-', '{1:2}', '// c\n1', '[1]/*c*/', '\ufeff{}', "'a'", '-NaN', '[-]', '1e', '0x10']
BADSPACE = ['\x0b', '\x0c', '\x1c', '\x1f', '\x85', '\xa0', '\u1680', '\u2003', '\u2028', '\u2029', '\u3000', '\ufeff', '\x00', '\u200b']


def reject(ctx, r):
    from jschon import JSON
    t = r.choice(BADTEXT)
    x = r.random()
    if r.random() < .25:
        # whitespace that is not JSON's, between the tokens of a valid text
        parts = r.choice([['1'], ['{}'], ['[', ']'], ['[', '1', ',', 'null', ']'], ['{', '"a"', ':', '[', ']', '}'], ['"x"'], ['true']])
        i = r.randint(0, len(parts))
        t = ''.join(parts[:i]) + r.choice(['', ' ']) + r.choice(BADSPACE) + ''.join(parts[i:])
    if x < .3:
        t = '[' + json.dumps(gen.scalar(r)) + ',' + t + ']'
    elif x < .4:
        t = '{"k":' + t + '}'
    ctx.store['last'] = t
    try:
        std = json.loads(t, parse_constant=lambda c: (_ for _ in ()).throw(ValueError(c)))
    except ValueError:
        std = ValueError
    try:
        got = JSON.loads(t).value
    except ValueError:
        got = ValueError
    except Exception as e:
        raise Violation(f'loads raised {type(e).__name__}, not ValueError', text=t)
    check((got is ValueError) == (std is ValueError), 'acceptance of malformed text differs from a strict parser', text=t, got=got)
    if got is ValueError:
        ctx.event('rejected texts')
        ctx.state('rej', t[:12])
        if r.random() < .3:
            d = ctx.store.get('dir') or ctx.store.setdefault('dir', ctx.tmpdir())
            path = os.path.join(d, 'bad.json')
            with open(path, 'wb') as f:
                f.write(t.encode('utf-8'))
            try:
                JSON.loadf(path)
            except ValueError:
                pass
            else:
                raise Violation('loadf accepted malformed text', text=t)


BADBYTES = [b'\xff', b'\xc3', b'\xc3(', b'\x80', b'\xe2\x82', b'\xed\xa0\x80', b'\xf8\x88\x80\x80\x80', b'\xc0\xaf', b'\xe9', b'\xa4\xbf']


def badbytes(ctx, r):
    """A file that is not UTF-8 is not a JSON document; a string with no UTF-8 form is not silently changed."""
    from jschon import JSON
    d = ctx.store.get('dir') or ctx.store.setdefault('dir', ctx.tmpdir())
    path = os.path.join(d, 'bytes.json')
    raw = json.dumps(r.choice(['@', ['@'], {'@': 1}, {'k': ['x', '@']}, [1, {'a': '@x'}]])).encode('ascii').replace(b'@', r.choice(['', 'é', 'abc']).encode() + r.choice(BADBYTES))
    with open(path, 'wb') as f:
        f.write(raw)
    ctx.store['last'] = raw
    try:
        got = JSON.loadf(path)
    except ValueError:
        ctx.event('non-UTF-8 files')
        ctx.state('bytes', raw)
    except Exception as e:
        raise Violation(f'loadf of a file that is not UTF-8 raised {type(e).__name__}, not ValueError', raw=raw)
    else:
        raise Violation('loadf accepted a file that is not UTF-8', raw=raw, got=ascii(got.value))
    v = r.choice(['\ud800', 'a\udfff', ['x', {'\udc00k': 1}], {'k': '\udbff\udbff'}])
    if r.random() < .5:
        v = [v, 'é']
    J = JSON(copy.deepcopy(v))
    check(ident(json.loads(J.dumps()), v), 'dumps of an unpaired surrogate changes the value', value=ascii(v))
    try:
        J.dumpf(path)
    except ValueError:
        ctx.event('unpaired surrogates')
        return
    check(ident(JSON.loadf(path).value, v), 'dumpf silently changed the value', value=ascii(v), got=ascii(JSON.loadf(path).value))
    ctx.event('unpaired surrogates')


def unserial(ctx, r):
    from jschon import JSON
    c = r.choice([float('nan'), float('inf'), float('-inf')])
    v = r.choice([c, [c], {'a': c}, [1, {'b': [c]}]])
    J = JSON(v)
    d = ctx.store.get('dir') or ctx.store.setdefault('dir', ctx.tmpdir())
    for f in (J.dumps, lambda: str(J), lambda: J.dumpf(os.path.join(d, 'n.json')), lambda: repr(J)):
        try:
            f()
        except ValueError:
            continue
        raise Violation('NaN/Infinity was serialized', value=v)
    ctx.event('unserializable')


LOCALE_PROG = r'''
import sys, warnings, json
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1])
from jschon import JSON
import jschon, locale
assert jschon.__file__.startswith(sys.argv[1])
v = json.loads(sys.stdin.buffer.read().decode('ascii'))
JSON(v).dumpf(sys.argv[2])
raw = open(sys.argv[2], 'rb').read()
assert json.loads(raw.decode('utf-8')) == v, 'file is not UTF-8'
assert JSON.loadf(sys.argv[2]).value == v, 'loadf differs'
print(locale.getpreferredencoding(False))
'''


def locales(ctx, r):
    v = {'k\u00e9\U0001F600': ['中\u2028', gen.value(r, 2, 3)], 'x': gen.value(r, 2, 3)}
    d = ctx.tmpdir()
    env = {'PATH': os.environ.get('PATH', ''), 'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0', 'HOME': d}
    p = subprocess.run([sys.executable, '-X', 'utf8=0', '-c', LOCALE_PROG, os.path.join(ctx.scratch, 'tree'), os.path.join(d, 'x.json')],
                       input=json.dumps(v).encode('ascii'), env=env, capture_output=True, timeout=60)
    err = p.stderr.decode('utf-8', 'replace')
    check(p.returncode == 0, 'file round trip depends on the locale', value=v, stderr=err[-1500:])
    ctx.event('locale runs')
    ctx.state('locale', p.stdout)


def remote(ctx, r):
    """loadr, from a server on the loopback interface"""
    from checks.c11 import Server
    from jschon import JSON
    srv = ctx.store.get('srv')
    if srv is None:
        for k in [k for k in os.environ if k.lower().endswith('_proxy')]:
            del os.environ[k]
        srv = ctx.store['srv'] = Server()
        srv.start()
    v = gen.value(r, 3, 4, p_scalar=.2)
    body, ok = textgen(r, v), True
    try:
        body = body.encode()
    except UnicodeError:
        body = json.dumps(v).encode()
    status = 200
    x = r.random()
    if x < .15:
        status, ok = r.choice([404, 500, 403, 410]), None
    elif x < .4:
        body, ok = r.choice([b'', b'{', b'NaN', b'{"a": Infinity}', b'[-Infinity]', b'<html>', b'[1,]', b"{'a': 1}", b'[NaN', b'01']), False
    path = '/' + '/'.join(r.choice(['a', 'b.json', 'c-d', 'e%20f']) for _ in range(r.randint(1, 3)))
    srv.replies = {path: (status, body)}
    del srv.log[:]
    ctx.store['last'] = (path, status, body)
    try:
        got = JSON.loadr(f'http://127.0.0.1:{srv.port}{path}')
    except Exception as e:
        got = e
    check(srv.log == [path], 'loadr did not fetch the URL once', path=path, got=list(srv.log))
    if ok:
        want = json.loads(body.decode())
        check(type(got) is JSON and ident(got.value, want) and order(got.value, want), 'loadr differs from a standard parser', body=body, got=ascii(got))
        verify(ctx, got, want)
        ctx.event('remote loaded')
    elif ok is None:
        check(isinstance(got, Exception), 'loadr of an error response succeeded', status=status, got=ascii(got))
    else:
        check(isinstance(got, ValueError), 'loadr accepted malformed text', body=body, got=ascii(got))
        ctx.event('remote refused')


def teardown(ctx):
    srv = ctx.store.get('srv')
    if srv:
        srv.httpd.shutdown()


UNITS = {'remote': (remote, 1200, 8000), 'roundtrip': (roundtrip, 30000, 150000), 'files': (files, 4800, 16000), 'reject': (reject, 18000, 40000),
         'unserial': (unserial, 2400, 4000), 'badbytes': (badbytes, 1600, 8000), 'locales': (locales, 8, 64)}
