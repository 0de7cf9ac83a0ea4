"""See DESIGN.md, C17."""
import os

import numpy as np

from mon import api, cmp, corpus, gen, spec
from mon.core import Violation
from mon.mon import Watch

RULE = ('files of 1..5 binary and text sets (any payload that spells no delimiter line; LF or CR-LF, padded, trimmed, '
        'with or without final newline, made by the package or by an independent encoder) with a line break put between '
        'the data of some sets and their delimiter; the repaired file is compared set by set with the file before the '
        'line breaks were put in, and byte by byte with the expected content; distinct = distinct damaged files')
CASES = {'quick': 6000, 'thorough': 200000}
REQUIRED = {'files repaired': 5000, 'sets compared': 9000, 'binary sets separated': 4000, 'repaired once more': 2500,
            'crlf': 1000, 'no final newline': 500, 'default name': 1000, 'payloads that end with a line break': 100,
            'files that need no repair': 300}


def delimiter_line(data):
    """The bytes hold a line that looks like a delimiter."""
    return any(x.rstrip() == b'    -1' for x in (b'\n' + data + b'\n').splitlines())


def content(ctx):
    """(bytes, blocks, expected) of a file without separated delimiters, or None."""
    rng = ctx.rng
    g = gen.R(rng)
    st = gen.style(rng)
    only = rng.random() < 0.35
    sets = []
    for _ in range(g.pick((1, 1, 2, 2, 3, 4, 5))):
        while True:
            if only or rng.random() < 0.6:
                w, e = gen.make(rng, 58, binary=True, ascii_only=True)
                if rng.random() < 0.4:      # a line break at the end (or the beginning) of the payload
                    v = np.array(e['data'], complex if np.iscomplexobj(e['data']) else float)
                    raw = bytearray(v.tobytes())
                    s = g.pick((b'\n', b'\r', b'\r\n', b'\n\r', b'\n\n', b'    -1', b'-1', b'\n-'))
                    # the least significant byte of the last value in the file's byte order comes last for '>'
                    at = len(raw) - 8 if st.byte_order == '>' else len(raw) - 1
                    if st.byte_order == '>':
                        raw[at:at + len(s)] = s[::-1]
                    else:
                        raw[len(raw) - len(s):] = s
                    v2 = np.frombuffer(bytes(raw), v.dtype)
                    if np.all(np.isfinite(v2)) and np.all(np.abs(v2) < 1e300) and e['ord_data_type'] in (4, 6):
                        e['data'] = v2.copy()
            else:
                e = gen.foreign(rng) if rng.random() < 0.12 else gen.make(rng, g.pick(gen.KINDS), ascii_only=True,
                                                                            binary=False)[1]
                if 'lines' in e and not e['lines']:
                    continue
            one = spec.encode_set(e, st)
            body = one[one.index(b'\n') + 1:]
            body = body[:body.rindex(b'    -1')]
            if not e.get('binary'):
                body = body[:len(body) - len(st.eol)]
            if not delimiter_line(body):
                break
        sets.append(e)
    return spec.encode(sets, st), sets, st


def case(ctx):
    rng = ctx.rng
    g = gen.R(rng)
    intact, sets, st = content(ctx)
    eol = st.eol.encode()
    # put line breaks in
    broken, separated, pieces, tail_breaks = b'', 0, [], False
    blocks = spec.blocks(intact)
    share = g.pick((0.0, 0.5, 1.0, 1.0))
    for (start, end, kind, binary, body), e in zip(blocks, sets):
        raw = intact[start:end]
        at = raw.rindex(b'    -1')
        data, close = raw[:at], raw[at:]
        if binary:
            ends = data[-1:] in b'\r\n'
            if rng.random() < share or ends:        # without it, the end of the data would be the line break
                broken += data + eol + close
                separated += 1
                ctx.count('payloads that end with a line break', ends)
            else:
                broken += raw
            tail_breaks |= ends
        else:
            broken += raw
        pieces.append((data, binary))
    folder = os.path.join(ctx.scratch, g.pick(('a', 'b.c', 'd e')))
    os.mkdir(folder)
    name = g.pick(('f.uff', 'f', 'my.file.unv', '.uff', 'x_fixed.UFF'))
    path = os.path.join(folder, name)
    api.spill(path, broken)
    watch = Watch(ctx, ctx.scratch)
    base, ext = os.path.splitext(name)
    default = os.path.join(folder, base + '_fixed' + ext)
    given = rng.random() < 0.6
    out = os.path.join(folder, g.pick(('out.uff', 'out', name + '.2'))) if given else default
    if rng.random() < 0.2:
        api.spill(out, b'an older file that is longer than the new one ' * 50)
    if given and rng.random() < 0.1:
        out = path                  # repaired in place
    fn = api.pyuff.fix_58b
    args = (path, out) if given else (path,) if rng.random() < 0.7 else (path, None)
    _, err, _ = watch.call('fix_58b%r' % (tuple(os.path.basename(a) if a else a for a in args),), fn, *args,
                           writes=[out], may_print=True)
    witness = {'intact': intact, 'given': broken, 'style': repr(st)}
    if err is not None:
        raise Violation('fix_58b raised %s: %s' % (type(err).__name__, err), witness=witness)
    if out != path and api.slurp(path) != broken:
        raise Violation('fix_58b changed the original file', witness=witness)
    if not os.path.exists(out):
        raise Violation('fix_58b did not write %s (there are %r)' % (os.path.basename(out), os.listdir(folder)), witness=witness)
    fixed = api.slurp(out)
    witness['repaired'] = fixed
    # delimiters directly behind the data
    at = 0
    for i, (data, binary) in enumerate(pieces):
        if not fixed.startswith(data, at):
            k = next((q for q in range(len(data)) if fixed[at + q:at + q + 1] != data[q:q + 1]), 0)
            raise Violation('byte %d of set %d is not there after the repair: %r instead of %r' % (
                k, i, fixed[at + k:at + k + 20], data[k:k + 20]), witness=witness)
        at += len(data)
        rest = fixed[at:]
        if not rest.startswith(b'    -1'):
            raise Violation('the delimiter is not right behind the data of set %d: %r' % (i, rest[:20]), witness=witness)
        line = rest.splitlines(True)[0]
        if line.strip() != b'-1' or (i < len(pieces) - 1 and line[-1:] not in b'\r\n'):
            raise Violation('the delimiter of set %d is followed by %r' % (i, line[6:40]), witness=witness)
        at = len(fixed) - len(rest) + len(line)
    if fixed[at:]:
        raise Violation('the repaired file goes on behind the last set: %r' % fixed[at:at + 40], witness=witness)
    if not separated:
        if fixed != broken:
            raise Violation('a file that needs no repair was changed', witness=witness)
        ctx.count('files that need no repair')
    # the same sets
    ref = ctx.path()
    api.spill(ref, intact)
    want, got = api.read_all(ref), api.read_all(out)
    u, v = api.pyuff.UFF(ref), api.pyuff.UFF(out)
    if list(u.get_set_types()) != list(v.get_set_types()) or list(u.get_set_formats()) != list(v.get_set_formats()):
        raise Violation('the repaired file has sets %r %r instead of %r %r' % (
            list(v.get_set_types()), list(v.get_set_formats()), list(u.get_set_types()), list(u.get_set_formats())),
            witness=witness)
    if len(got) != len(sets):
        raise Violation('the repaired file has %d sets instead of %d' % (len(got), len(sets)), witness=witness)
    for i, (a, b, e) in enumerate(zip(got, want, sets)):
        bad = cmp.same(a, b, 'set %d' % i)
        if bad:
            raise Violation('after the repair %s' % bad, witness=witness)
        if e.get('binary'):
            bad = cmp.differ(a['data'], e['data'], 0, 'data of set %d' % i)
            if bad:
                raise Violation('after the repair %s' % bad, witness=witness)
        ctx.count('sets compared')
    if not tail_breaks:
        again = ctx.path()
        _, err, _ = watch.call('fix_58b of a repaired file', fn, out, again, writes=[again], may_print=True)
        if err is not None:
            raise Violation('fix_58b of a repaired file raised %s: %s' % (type(err).__name__, err), witness=witness)
        if api.slurp(again) != fixed:
            raise Violation('fix_58b changes a repaired file', witness=dict(witness, again=api.slurp(again)))
        ctx.count('repaired once more')
    ctx.count('files repaired')
    ctx.count('binary sets separated', separated)
    ctx.count('crlf', st.eol != '\n')
    ctx.count('no final newline', not st.final_eol)
    ctx.count('default name', not given)
    ctx.seen(broken)
    if ctx.sample is None:
        ctx.sample = {'sets': [e['type'] for e in sets], 'separated': separated, 'bytes': len(broken), 'style': repr(st)}
