from base import *
import utils
BOUND = 'names of at most 20 characters over a small alphabet, 12-digit timestamps, 5-digit process numbers, lists nested at most 5 deep'


def word(r, lo=0, hi=8):
    return ''.join(r.choice('ab_0123459.-XzT ') for _ in range(r.randint(lo, hi)))


def digits(r, n):
    return ''.join(r.choice('0123456789') for _ in range(n))


def nest(r, d):
    return [nest(r, d - 1) if d and r.random() < .4 else r.choice([r.randint(-5, 5), 'ab', 1.5, 0, '', None]) for _ in range(r.randint(0, 4))]


def cases(r, n):
    for _ in range(300 * n):
        yield {'kind': 'stamp', 'base': word(r, 0), 'ts': digits(r, 12)}
        yield {'kind': 'plain', 's': r.choice([word(r), word(r) + '_' + digits(r, 11), word(r) + digits(r, 12), word(r) + '_' + digits(r, 12) + 'x', word(r) + '_' + digits(r, 6) + 'a' + digits(r, 5), ''])}
        yield {'kind': 'file', 'stem': word(r, 0), 'mpi': digits(r, 5), 'ts': digits(r, 12), 'ext': r.choice(['cry', 'txt', 'dat', 'TXT']), 'other': word(r, 0),
               'spoil': r.choice([None, None, None, 'mpi', 'ts'])}
        yield {'kind': 'group', 'files': ['%s_%s_%s.txt' % (word(r, 0, 3), digits(r, 5), r.choice(['000010000000', '000020000000', '123456789012'])) for _ in range(r.randint(0, 8))]}
        yield {'kind': 'flat', 'l': nest(r, r.randint(0, 5))}


def leaves(l):
    for x in l:
        if isinstance(x, list):
            yield from leaves(x)
        else:
            yield x


def stamped(s):
    return len(s) >= 13 and s[-13] == '_' and all(ch in '0123456789' for ch in s[-12:])


def test(c):
    k = c['kind']
    if k == 'stamp':
        s = c['base'] + '_' + c['ts']
        need(bool(utils.has_filename_timestamp(s)), '{!r} is said to have no timestamp', s)
        need(tuple(utils.get_filename_and_timestamp_pair(s)) == (c['base'], c['ts']), '{!r} splits into {}', s, utils.get_filename_and_timestamp_pair(s))
    elif k == 'plain':
        s = c['s']
        need(bool(utils.has_filename_timestamp(s)) == stamped(s), 'timestamp of {!r}: {}', s, utils.has_filename_timestamp(s))
        want = (s[:-13], s[-12:]) if stamped(s) else (s, '000000000000')
        need(tuple(utils.get_filename_and_timestamp_pair(s)) == want, '{!r} splits into {}', s, utils.get_filename_and_timestamp_pair(s))
    elif k == 'file':
        m, t = c['mpi'], c['ts']
        if c['spoil'] == 'mpi':
            m = m[:3] + 'x' + m[4:]
        if c['spoil'] == 'ts':
            t = 'a' + t[1:]
        fn = '%s_%s_%s.%s' % (c['stem'], m, t, c['ext'])
        want = (c['stem'], None if c['spoil'] == 'mpi' else int(m), None if c['spoil'] == 'ts' else int(t), c['ext'])
        got = tuple(utils.dummy_split_filename(fn))
        need(got == want, '{!r} splits into {} instead of {}', fn, got, want)
        for stem in (c['stem'], c['other'], c['stem'] + 'a', c['stem'][1:]):
            for e, fun in (('cry', utils.is_filename_correct_crys_cry_file), ('txt', utils.is_filename_correct_crys_txt_file)):
                w = stem == c['stem'] and not c['spoil'] and e == c['ext']
                need(bool(fun(fn, stem)) == w, '{!r} is {} for stem {!r} and {}', fn, 'refused' if w else 'accepted', stem, e)
    elif k == 'group':
        want = {}
        for f in c['files']:
            want.setdefault(f[-16:-4], []).append(f)
        a = list(c['files'])
        got = utils.group_txt_files_by_timestamps(a)
        need(dict(got) == want and list(got) == list(want), 'groups {} instead of {}', got, want)
        need(a == c['files'], 'the list of files is changed')
    else:
        l = json.loads(json.dumps(c['l']))
        got = utils.flatten(l)
        w = list(leaves(c['l']))
        need(len(got) == len(w) and all(type(a) is type(b) and a == b for a, b in zip(got, w)), '{} flattens to {}', c['l'], got)
        need(l == c['l'], 'the list is changed')
