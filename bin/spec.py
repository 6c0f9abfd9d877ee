"""What each check runs: entries (harness functions), their parameters per tier, the bounds they stand for."""
Z3V = '5.3.2'

COMMON = [
    'the encoding is the LLVM IR clang 18 -O1 makes of the sources; signed overflow wraps (-fwrapv), as it does in the g++ build the tests use, and NDEBUG is set as in the Release build',
    'libstdc++/libc parts that are not header code (std::string members, hashing, strto*, ctype in the C locale) are the models in models/models.cpp; headers are the real ones',
    'a single allocation above 2 MiB raises std::bad_alloc; smaller ones succeed',
    'every reported counterexample was replayed on the natively compiled code; sampled paths are replayed and compared on every run',
]


def E(entry, bound='', reach=(), **kw):
    return dict(entry=entry, bound=bound, reach=list(reach), **kw)


PROPS = {}


def prop(pid, bounds, quick, thorough=None, assume=(), **kw):
    PROPS[pid] = dict(bounds=bounds, quick=quick, thorough=thorough, assume=list(assume), **kw)


def entries(pid, tier):
    P = PROPS[pid]
    es = P['quick'] if tier == 'quick' or not P['thorough'] else P['thorough']
    seen = {}
    r = []
    for e in es:
        e = dict(e)
        k = e['entry'] + ''.join('-%s' % x for x in e.get('params', [])) + ('-reuse' if e.get('reuse') else '')
        seen[k] = seen.get(k, 0) + 1
        if 'alts' not in e and e['entry'] in SIZE and tier == 'quick':
            i = SIZE[e['entry']]
            v = e['params'][i]
            lower = sorted({x for x in ((v - 1, v // 2) if v < 10 else (v // 2, v // 8) if v < 100 else (v // 10,)) if x >= 1}, reverse=True)
            e['alts'] = [dict(params=e['params'][:i] + [x] + e['params'][i + 1:], bound=e['bound'] + ', size %d in place of %d' % (x, v)) for x in lower]
        e['key'] = k if seen[k] == 1 else '%s.%d' % (k, seen[k])
        r.append(e)
    return r


def assumptions(pid):
    return COMMON + PROPS[pid]['assume']



def also(pid, *es):
    """Entries of both tiers."""
    for t in ('quick', 'thorough'):
        if PROPS[pid][t]:
            PROPS[pid][t] = PROPS[pid][t] + list(es)


def P(entry, params, bound='', reach=(), **kw):
    return E(entry, bound, reach, params=list(params), **kw)


def down(values, i=0, first=()):
    """Smaller bounds, tried in turn where the solver gives no answer in its time (which the evidence then says)."""
    return [dict(params=list(first[:i]) + [v] + list(first[i + 1:]), bound='at most %d' % v) for v in values]


def R(entry, params, bound='', reach=(), **kw):
    """The same with released addresses handed out again at once, as allocators do."""
    return E(entry, bound + ', addresses reused', reach, params=list(params), reuse=True, **kw)


# Entries whose cost depends on how the code under test loops and branches, and which parameter is their size.
SIZE = dict(C02_str=0, C03_any=0, C03_after=0, C03_strlen=0, C10_nested=1, C11_str=0, C12_str=0, C13_str=0, C16_parse32=0, C16_parse64=0, C17_left=0, C17_right=0, C17_substr2=0, C17_substr3=0,
            C17_mid2=0, C17_mid3=0, C18_concat=0, C18_self=0, C18_case=0, C18_trim=0, C20_programs=0, C20_many=0, C20_deep=0, C21_left=0, C22_one=0, C22_long=0, C22_last=0, C23_value=2, C23_string=0,
            C23_row=0, C24_rows=0, C24_many=0, C21_many=0, C28_deep=0, C03_cut=0, C29_endless=0, C25_rows=0, C25_wide=0, C25_narrow=0, C26_one=1, C26_order=1, C26_several=0, C26_rounds=0, C26_many=0, C27_key=1, C27_keys=0, C27_agg=1, C27_distinct=0,
            C27_rounds=1, C27_many=0, C27_groups=0, C27_columns=0, C28_chain=1, C28_again=1, C28_long=1, C28_many=0, C29_any=0, C29_after=0, C30_chain=1, C30_history=0, C30_decode=0, C30_expr=0, C30_much=0,
            C31_each=0, C31_long=0, C32_str=0, C32_result=0, C34_f64=0, C34_f32=0, C37_string=0)

GROUPS = ['arithmetic', 'comparison', 'predicates', 'min/max/abs', 'casts', 'checked casts', 'functions', 'connectives']

def c01(a, b, w):
    return ([P('C01_i32', [1, a], 'varints of 1 to %d bytes' % a, ['constant']), P('C01_n32', [1, a], 'varints of 1 to %d bytes' % a, ['constant']),
             P('C01_i64', [1, b], 'varints of 1 to %d bytes' % b, ['constant']), P('C01_n64', [1, b], 'varints of 1 to %d bytes' % b, ['constant'])] +
            [E('C01_rt32', 'every 32-bit value, shortest form and zero-padded to up to 5 bytes', ['roundtrip']), E('C01_rt64', 'every 64-bit value, shortest form and zero-padded to up to 10 bytes', ['roundtrip']),
             P('C01_var', [1, a, w], 'indices 0 to %d, varints of 1 to %d bytes' % (w - 1, a), ['var'])])


prop('C01', 'every varint of 1 to 10 bytes (all values, all zero-padded forms, bits beyond the type included), variable indices into rows of 5 (thorough: 12) values',
     c01(10, 10, 5), c01(10, 10, 12))


def c02(n, pad):
    return [E('C02_f32', 'all bit patterns', ['f32']), E('C02_f64', 'all bit patterns', ['f64']), E('C02_bool', 'both', ['bool']), E('C02_null', 'all types', ['null']),
            P('C02_str', [n, pad], 'strings of 0 to %d arbitrary bytes, length prefix padded to up to %d bytes' % (n, pad), ['str']),
            E('C02_long', 'strings of 126 to 129, 200, 300, 16383, 16384, 65535, 65536, 70000, 1048575, 1048576 and 1500000 bytes; three of the bytes arbitrary', ['long'])]


prop('C02', 'all float and double bit patterns; strings of up to 6 (thorough: 24) arbitrary bytes and 14 lengths from 126 to 1500000', c02(6, 4), c02(24, 5))


def c03(n, k, m):
    return ([P('C03_any', [i], 'every sequence of %d bytes' % i, ['error', 'accepted']) for i in range(1, n + 1)] + [P('C03_any', [0], 'the empty sequence', ['accepted'])] +
            [P('C03_after', [k, w], 'every sequence of %d bytes after a valid beginning (%d)' % (k, w)) for w in range(16)] +
            [P('C03_strlen', [m, 10], 'a STRING constant with any length prefix of up to 10 bytes and up to %d bytes left' % m, ['toolong', 'accepted'])])


prop('C03', 'every byte sequence of length 0 to 4 (thorough: 5), every sequence of length 3 (thorough: 4) after 16 beginnings, every string length prefix of up to 10 bytes', c03(4, 3, 3), c03(5, 4, 8),
     assume=['a single allocation above 2 MiB while decoding these few bytes is a violation', 'longer sequences are covered only as far as decoding an operator does not depend on what was decoded before it; the decoder is run on an exact-size heap object, and reading one byte beyond it is a violation'])


def c04(a, b):
    return [P('C04_two', [0, 0], 'every two-byte code', ['accepted', 'rejected', 'no claim']), P('C04_two', [a, b], 'every two-byte code, between other bytes', ['accepted', 'rejected']),
            P('C04_one', [0], 'every one-byte code', ['accepted', 'rejected']), P('C04_one', [1], 'every one-byte code after a constant', ['accepted', 'rejected']),
            P('C04_eoe', [2, 2] if b < 2 else [3, 3], 'the terminator after up to %d operators' % (2 if b < 2 else 3), ['eoe'])]


prop('C04', 'every one-byte and two-byte code, alone and after a constant, followed by up to 1 (thorough: 3) arbitrary bytes', c04(1, 1), c04(1, 3),
     assume=['no claim for SUB of STRING, VAR of DECIMAL and casts without a type (0x00) or of DECIMAL to itself (0x66): the documentation and the code disagree or are silent'])

prop('C05', 'none on numbers; strings of up to 2 (thorough: 4) arbitrary bytes, 1 byte for casts from STRING to floating point; two values for casts from floating point to STRING',
     [E('C05_leaf', 'constants, NULLs and variables of every type', ['leaf']), E('C05_again', 'three programs one after another', ['again']), E('C05_long', 'programs of up to 5000 operators', ['long'])] +
     [P('C05', [g, 2, n], '%s, %s operands' % (GROUPS[g], 'NULL or any' if n else 'any non-NULL'), ['done']) for g in range(8) for n in (0, 1)],
     [E('C05_leaf', '', ['leaf']), E('C05_again', 'three programs one after another', ['again']), E('C05_long', 'programs of up to 5000 operators', ['long'])] + [P('C05', [g, 4, n], '%s, strings up to 4 bytes' % GROUPS[g], ['done']) for g in range(8) for n in (0, 1)])

prop('C06', 'none: every pair of 32-bit and every pair of 64-bit operands, each of + - * NEG POS',
     [E('C06_i32', 'all operands', ['mul', 'other']), E('C06_i64', 'all operands', ['mul', 'other'])])

prop('C07', 'none: every pair of 32-bit and every pair of 64-bit operands',
     [P('C07_' + x, [0], 'all operands', ['nonzero', 'zero'], alts=down([0x7fffffff, 0xffff, 0xff])) for x in ('div32', 'mod32', 'div64', 'mod64')] +
     [P('C07_' + x, [0], 'all operands', ['identity'], alts=down([0x7fffffff, 0xffff, 0xff])) for x in ('id32', 'id64')])

prop('C08', 'none: every pair of binary32 and every pair of binary64 bit patterns; NaN payloads are not compared',
     [E('C08_f32', 'all operands', ['div', 'zero']), E('C08_f64', 'all operands', ['div', 'zero'])],
     assume=['the solver decides over IEEE-754 binary32/binary64, round to nearest even, the arithmetic x86-64 SSE performs'])

prop('C09', 'none on numbers; strings of up to 2 (thorough: 4) arbitrary bytes; every documented strict operator, every non-empty set of NULL operands',
     [P(e, [g, 2], GROUPS[g], ['done']) for e in ('C09', 'C09_const') for g in (0, 1, 3, 4, 5, 6)],
     [P(e, [g, 4], GROUPS[g], ['done']) for e in ('C09', 'C09_const') for g in (0, 1, 3, 4, 5, 6)])

prop('C10', 'all truth values; every expression of up to 5 (thorough: 7) operators and variables over 2 and 3 variables',
     [E('C10_unary', 'NOT', ['not']), E('C10_binary', 'AND, OR', ['binary']), E('C10_const', 'constant operands', ['const']),
      P('C10_nested', [2, 3], '3 steps', ['nested']), P('C10_nested', [2, 5], '5 steps, 2 variables', ['nested']), P('C10_nested', [3, 5], '5 steps, 3 variables', ['nested'])],
     [E('C10_unary', 'NOT', ['not']), E('C10_binary', 'AND, OR', ['binary']), E('C10_const', 'constant operands', ['const']),
      P('C10_nested', [3, 5], '5 steps', ['nested']), P('C10_nested', [3, 6], '6 steps', ['nested']), P('C10_nested', [3, 7], '7 steps', ['nested'])])

prop('C11', 'none on numbers; strings of up to 3 (thorough: 6) arbitrary bytes',
     [E('C11_' + t, 'all values', ['value']) for t in ('i32', 'i64', 'bool', 'f32', 'f64')] + [P('C11_null', [3], 'NULL of every type', ['null']), P('C11_str', [3], 'strings up to 3 bytes', ['value'])],
     [E('C11_' + t, 'all values', ['value']) for t in ('i32', 'i64', 'bool', 'f32', 'f64')] + [P('C11_null', [6], '', ['null']), P('C11_str', [6], 'strings up to 6 bytes', ['value'])])

prop('C12', 'none on numbers; pairs of strings of up to 4 (thorough: 6) arbitrary bytes each, and after common beginnings of 15 to 300000 bytes',
     [E('C12_' + t, 'all pairs', ['cmp']) for t in ('i32', 'i64', 'bool', 'f32', 'f64')] + [P('C12_str', [4], 'strings up to 4 bytes', ['str']), E('C12_long', 'strings that agree up to one of 16 places (15 to 300000), then differ or end', ['str'])] +
     [E('C12_laws_' + t, 'all pairs', ['laws']) for t in ('i32', 'i64', 'f32', 'f64')],
     [E('C12_' + t, 'all pairs', ['cmp']) for t in ('i32', 'i64', 'bool', 'f32', 'f64')] + [P('C12_str', [6], 'strings up to 6 bytes', ['str']), E('C12_long', 'strings that agree up to one of 16 places (15 to 300000), then differ or end', ['str'])] +
     [E('C12_laws_' + t, 'all pairs', ['laws']) for t in ('i32', 'i64', 'f32', 'f64')])

prop('C13', 'none on numbers; pairs of strings of up to 4 (thorough: 6) arbitrary bytes each, and after common beginnings of 15 to 300000 bytes',
     [E('C13_' + t, 'all pairs', ['minmax']) for t in ('i32', 'i64', 'bool', 'f32', 'f64')] + [P('C13_str', [4], 'strings up to 4 bytes', ['str']), E('C13_long', 'strings that agree up to one of 16 places (15 to 300000), then differ or end', ['str'])] +
     [E('C13_abs' + t, 'all values', ['abs', 'checked', 'threw']) for t in ('32', '64')] + [E('C13_abs' + t, 'all values', ['abs']) for t in ('f32', 'f64')],
     [E('C13_' + t, 'all pairs', ['minmax']) for t in ('i32', 'i64', 'bool', 'f32', 'f64')] + [P('C13_str', [6], 'strings up to 6 bytes', ['str']), E('C13_long', 'strings that agree up to one of 16 places (15 to 300000), then differ or end', ['str'])] +
     [E('C13_abs' + t, 'all values', ['abs', 'checked', 'threw']) for t in ('32', '64')] + [E('C13_abs' + t, 'all values', ['abs']) for t in ('f32', 'f64')])

prop('C14', 'none: every value of every source type; strings of up to 3 bytes in the identity casts',
     [E('C14_int', 'all values', ['int']), E('C14_tobool', 'all values', ['tobool']), E('C14_tofp', 'all values', ['tofp'])] +
     [E('C14_' + t, 'all values', ['toint']) for t in ('f32i32', 'f64i32', 'f32i64', 'f64i64')] + [P('C14_same', [3], 'casts to the same type', ['same'])],
     assume=['floating-point values that do not fit the target integer, and NaN, are outside the claim of the unchecked cast'])

prop('C15', 'none: every value of every source type',
     [E('C15_' + t, 'all values', ['threw', 'value']) for t in ('i64i32', 'f32i32', 'f64i32', 'f32i64', 'f64i64')] + [E('C15_other', 'casts that always fit', ['other'])])

prop('C16', 'none for integers and booleans to text and back; text to integer: every string of up to 2 (thorough: 4) arbitrary bytes after each of 9 prefixes, most of which put the number near the limits of the type',
     [E('C16_text32', 'all values', ['text']), E('C16_text64', 'all values', ['text']), E('C16_back32', 'all values', ['back']), E('C16_back64', 'all values', ['back']), E('C16_bool', 'both values', ['bool'])] +
     [P('C16_parse' + t, [3 if not i else 2, i], 'prefix %d' % i, ['value'] if i in (0, 4, 7, 8) or (t == '64' and i == 5) else ['value', 'refused']) for t in ('32', '64') for i in range(9) if (t, i) != ('32', 5)] +
     [P('C16_parse32', [3, 5], 'prefix 5', ['value'])],
     [E('C16_text32', 'all values', ['text']), E('C16_text64', 'all values', ['text']), E('C16_back32', 'all values', ['back']), E('C16_back64', 'all values', ['back']), E('C16_bool', 'both values', ['bool'])] +
     [P('C16_parse' + t, [4, i], 'prefix %d' % i, ['value']) for t in ('32', '64') for i in range(9)])

prop('C19', 'none: every binary64 value',
     [E('C19_round', 'all values', ['big', 'nan', 'small']), E('C19_libm', 'all values, the C library function itself uninterpreted', ['libm'])],
     assume=['sin, cos, ... are uninterpreted functions: what is decided is which function is applied to which argument and that its result is returned unchanged'])

_c33 = [E('C33_zero', 'positive and negative zero', ['zero']), E('C33_huge', 'four integers above 2^63', ['huge'])]


def C33(t, a, b, c, d):
    return P('C33_f' + t, [a, b, c, d], 'all +-n / 2^u, 2^%d <= n < 2^%d, %d <= u <= %d' % (a, b + 1, c, d), ['text'])


prop('C33', 'values +-n / 2^u with the ranges of n and u listed per entry; other values (longer significands) are outside the bound',
     _c33 + [C33('64', 4, 4, 0, 3), C33('64', 2, 2, 9, 18), C33('64', 3, 3, 40, 52), C33('64', 3, 3, 53, 60), C33('64', 8, 8, 0, 1), C33('64', 6, 6, 20, 24), C33('64', 12, 12, 0, 0), C33('32', 4, 4, 1, 3), C33('32', 3, 3, 20, 22)],
     _c33 + [C33('64', 2, 2, 0, 8), C33('64', 2, 2, 9, 18), C33('64', 3, 3, 40, 52), C33('64', 3, 3, 53, 60), C33('64', 5, 5, 0, 2), C33('64', 5, 5, 3, 8), C33('64', 6, 6, 20, 24), C33('64', 8, 8, 0, 1), C33('64', 8, 8, 9, 14),
             C33('64', 10, 10, 30, 32), C33('64', 12, 12, 0, 0), C33('32', 2, 2, 0, 8), C33('32', 2, 2, 9, 18), C33('32', 5, 5, 3, 8), C33('32', 8, 8, 16, 20)],
     assume=['number formatting (iostreams, to_chars) is the exact model in models/streams.cpp, compared with the real library on every replayed path'])


def c17(a, b, m):
    return [P('C17_left', [a], 'strings up to %d bytes' % a, ['left']), P('C17_right', [a], 'strings up to %d bytes' % a, ['right']), P('C17_substr2', [a], 'strings up to %d bytes' % a, ['substr2']),
            P('C17_substr3', [b], 'strings up to %d bytes' % b, ['substr3']), P('C17_mid2', [a], 'strings up to %d bytes' % a, ['mid2']), P('C17_mid3', [m], 'strings up to %d bytes' % m, ['mid3'], jobs=8 if m > 6 else 1),
            E('C17_long', 'strings of 15, 16, 17, 130, 300, 33000 and 70000 bytes', ['long'])]


prop('C17', 'every 32-bit integer argument; strings of up to 8, three arguments: 5 (thorough: 16, SUBSTR 12, MID 10) arbitrary bytes, and 7 of 15 to 70000 bytes', c17(8, 5, 5), c17(16, 12, 10))


def c18(n):
    return [P('C18_concat', [n], 'two strings of up to %d bytes' % n, ['concat']), P('C18_self', [n], 'a string with itself', ['self']), P('C18_case', [n], 'strings of up to %d bytes' % n, ['case']),
            P('C18_trim', [n], 'strings of up to %d bytes' % n, ['trim']), E('C18_long', '15, 16, 40, 300, 33000 and 70000 bytes', ['long'])]


prop('C18', 'strings of up to 8 (thorough: 20) arbitrary bytes, and 6 of 15 to 70000 bytes', c18(8), c18(20), assume=['case mapping and white space are those of the C locale'])


def c20(n, big, pairs):
    return ([P('C20_programs', [n, s, u, l], '%d steps, operators %s' % (n, t), ['programs']) for s, u, l, t in
             ((0, 0, 0, 'on INT32'), (1, 1, 0, 'on BOOL, with NULLs'), (2, 0, 2, 'on STRING'), (3, 1, 0, 'on DOUBLE, with NULLs'))] +
            [P('C20_around', [g], GROUPS[g], ['around']) for g in range(8)] + [P('C20_few', [g], GROUPS[g], ['few']) for g in range(8)] +
            [P('C20_pairs', [g, pairs if g in (4, 5) else 8], 'one operator (%s) and then any' % GROUPS[g], ['pairs']) for g in range(8)] +
            [E('C20_last', 'programs of up to 4096 operators before the last', ['last']), E('C20_empty', 'nothing to evaluate', ['empty']), P('C20_many', [big], 'up to %d values left' % big, ['many']), P('C20_deep', [big // 2], 'operands up to %d deep' % (big // 2), ['deep'])])


prop('C20', 'every sequence of 4 (thorough: 5) operators, constants and variables from each of four sets; every operator between other values and with too few operands; every pair of operators, one on the value of the other, integers -8 to 7 (casts: -11, 0, 11); 12000 values left, 6000 deep', c20(4, 12000, 0), c20(5, 16000, 8))

prop('C21', '10 programs; every sequence of 1 (thorough: 2 and 3) earlier events of 8 kinds, each with any of the programs; all values of the rows',
     [P('C21_history', [1, 1], '1 event, NULLs', ['history', 'error']), P('C21_history', [1, 0], '1 event', ['history', 'error']), P('C21_rows', [0], '', ['rows']), P('C21_rows', [1], 'NULLs', ['rows']),
      E('C21_turns', 'two programs', ['turns']), E('C21_keep', '', ['keep']), P('C21_left', [6], '15 to 5000 values left by an earlier program, or by a failed one', ['left'])],
     [P('C21_history', [3, 0], '3 events', ['history', 'error'], jobs=8), P('C21_history', [2, 1], '2 events, NULLs', ['history', 'error']), P('C21_rows', [0], '', ['rows']), P('C21_rows', [1], 'NULLs', ['rows']),
      E('C21_turns', 'two programs', ['turns']), E('C21_keep', '', ['keep']), P('C21_left', [7], '15 to 20000 values left by an earlier program, or by a failed one', ['left'])],
     assume=['other runners are interleaved call by call; threads are outside the claim (nothing in the expression runner is shared between runners)'])


def c22(n, k, s):
    return [P('C22_one', [n, s], 'rows of up to %d values, strings of up to %d bytes' % (n, s), ['one']), P('C22_all', [k], 'rows of %d values, all read' % k, ['all']), P('C22_long', [260], 'rows of 260 values', ['long']), P('C22_long', [70000], 'rows of 70000 values', ['long']),
            P('C22_last', [4], 'up to 4 rows bound one after another', ['last']), E('C22_none', 'no row', ['none'])]


prop('C22', 'every value of every type and NULL; rows of up to 6 (thorough: 12) values, one of 260 and one of 70000', c22(6, 3, 3), c22(12, 4, 8),
     assume=['indices outside the row are outside the claim'])


def c23(n, m):
    return ([P('C23_value', [a, b, n], 'types %d and %d' % (a, b), ['equal', 'different']) for a in range(6) for b in range(6)] +
            [P('C23_null', [n], 'every type', ['null']), P('C23_string', [4 * n], 'strings of up to %d bytes' % (4 * n), ['string']), E('C23_long', 'strings that agree up to one of 15 places (15 to 300000), then differ or end', ['equal', 'different']), E('C23_wide', 'rows of 2 to 5000 values', ['equal', 'different'])] +
            [P('C23_row', [m if k < 2 else min(m, 3), k], 'rows of up to %d values' % (m if k < 2 else min(m, 3)), ['equal', 'different']) for k in range(3)])


prop('C23', 'every pair of values of every pair of types and NULL; strings of up to 3 (thorough: 8) bytes and of 15 to 300000; pairs of rows of up to 3 (thorough: 4) values, and of 2 to 5000', c23(3, 3), c23(8, 4),
     assume=['the hash of a string or floating-point number is computed by the libstdc++ function as modelled in models/models.cpp'])


def c24(n, k, s):
    return ([P('C24_rows', [n, 5], '%d rows, NULLs in the BOOL and INT32 columns' % n, ['rows', 'passed', 'dropped', 'error']), P('C24_rows', [n, 3], '%d rows, NULLs in the STRING column' % n, ['rows']),
             P('C24_rows', [n, 4], '%d rows, NULLs in the DOUBLE column' % n, ['rows']), P('C24_rows', [k, 6], '%d rows without NULLs' % k, ['rows'])] +
            [P('C24_ops', [g, s], 'every BOOL operator: %s' % GROUPS[g], ['ops']) for g in (1, 2, 4, 7)] + [P('C24_width', [70], 'rows of up to 70 values', ['width']), P('C24_many', [3000, 0], '3000 rows', ['many']), P('C24_many', [3000, 1], '3000 rows of which the last may pass', ['many']), P('C24_many', [3000, 2], '3000 rows of which the last may not pass', ['many'])])


prop('C24', '18 predicates over every sequence of 2 (thorough: 3) rows, all values; every operator with a BOOL result; rows of up to 20 values; one run of 3000 rows', c24(2, 3, 2), c24(2, 4, 4) + [P('C24_rows', [3, 5], '3 rows, NULLs', ['rows'], jobs=8)],
     assume=['predicates have type BOOL or are NULL constants; what a predicate means is specified in the harness, for the remaining operators by the expression runner'])


def c25(n, s):
    return ([P('C25_rows', [2, 2, 0], '2 expressions, 2 rows', ['rows']), P('C25_rows', [2, 1, 1], '2 expressions, 1 row, NULLs', ['rows']), P('C25_rows', [n, 1, 0], '%d expressions, 1 row' % n, ['rows'])] +
            [P('C25_ops', [g, s], 'every operator: %s' % GROUPS[g], ['ops']) for g in range(8)] + [E('C25_error', 'errors in between', ['error', 'after']), P('C25_wide', [1000], '1000 expressions', ['wide'])] + [P('C25_narrow', [1000, w], '1000 expressions over a row of %d' % w, ['wide']) for w in (0, 1, 40)])


prop('C25', 'every list of up to 3 (thorough: 4) of 12 expressions, up to 2 rows, all values; every operator between two columns; 1000 expressions', c25(3, 1), c25(4, 2) + [P('C25_rows', [2, 2, 1], '2 expressions, 2 rows, NULLs', ['rows'], jobs=8)],
     assume=['the value of each expression is what the expression runner evaluates it to on the row alone; formatting of floating-point numbers is left to C33'])

AGGS = ['COUNT_ALL'] + ['COUNT ' + t for t in ('INT32', 'INT64', 'BOOL', 'FLOAT', 'DOUBLE', 'STRING')] + ['SUM ' + t for t in ('INT32', 'INT64', 'FLOAT', 'DOUBLE')] + [k + t for t in ('INT32', 'INT64', 'FLOAT', 'DOUBLE', 'STRING') for k in ('MAX ', 'MIN ')]


def c26(n, s, k, m):
    return ([P('C26_one', [i, n, s if i > 18 else 1], '%s, up to %d rows' % (a, n), ['one']) for i, a in enumerate(AGGS)] +
            [P('C26_order', [i, 3, 1], '%s, 3 rows in every order' % a, ['order']) for i, a in enumerate(AGGS) if i not in (9, 10)] +
            [P('C26_order', [i, 2, 1], '%s, 2 rows' % AGGS[i], ['order']) for i in (9, 10)] +
            [P('C26_several', [2, 2, 1], '2 aggregates, 2 rows, NULLs', ['several']), P('C26_several', [3, 2, 0], '3 aggregates, 2 rows', ['several']), P('C26_rounds', [k, m], '%d rounds of up to %d rows' % (k, m), ['rounds'])] +
            [P('C26_many', [70000, 6], '70000 rows', ['many']), P('C26_many', [300, 6], '300 rows', ['many']), P('C26_many', [2, 3000], '3000 aggregates', ['many']), E('C26_two', 'two runners', ['two', 'first', 'second'])])


prop('C26', 'every aggregate over up to 3 (thorough: 5) rows, all values and NULL, strings of up to 1 (thorough: 2) bytes; 2 and 3 aggregates at once; 3 rounds; 70000 rows; 3000 aggregates', c26(3, 1, 3, 1),
     c26(4, 2, 3, 1) + [P('C26_one', [i, 5, 1], '%s, up to 5 rows' % a, ['one']) for i, a in enumerate(AGGS)] + [P('C26_rounds', [2, 2], '2 rounds of up to 2 rows', ['rounds']), P('C26_several', [3, 2, 1], '3 aggregates, NULLs', ['several'])],
     assume=['NaN is outside the claim; the sign of a zero result is not compared; SUM of floating point is added up in the order of the rows, SUM of integers wraps'])


def c27(n, s, k):
    return ([P('C27_key', [i, n, s if i == 5 else 0], 'key of type %d, up to %d rows' % (i, n), ['key']) for i in range(6)] +
            [P('C27_keys', [k, i, 0], 'columns %d, %d rows' % (i, k), ['keys']) for i in range(8)] + [P('C27_keys', [2, i, 1], 'columns %d, 2 rows, NULLs' % i, ['keys']) for i in range(8)] +
            [P('C27_agg', [i, 3, 1], '%s, 3 rows' % a, ['agg']) for i, a in enumerate(AGGS)] +
            [P('C27_distinct', [2], 'no aggregates', ['distinct']), P('C27_rounds', [2, 2], '2 rounds of up to 2 rows', ['rounds'])] + [P('C27_many', [1000, 300, i], '1000 rows, 300 groups, twice', ['many']) for i in range(3)] +
            [E('C27_wide', 'rows of 256 values', ['wide']), P('C27_columns', [12, 3], '12 grouping columns', ['columns']), P('C27_columns', [70, 40], '70 grouping columns, 40 aggregates', ['columns']), P('C27_columns', [140, 1], '140 grouping columns', ['columns']), E('C27_long', 'keys that agree up to one of 7 places (15 to 70000), then differ or end', ['long'])])


prop('C27', 'every sequence of up to 3 (thorough: 4) rows, all values and NULL, keys of every type and of up to 3 columns, every aggregate; 2 rounds; 1000 rows in 300 groups', c27(3, 1, 3), c27(4, 2, 3) + [P('C27_keys', [3, i, 1], 'columns %d, 3 rows, NULLs' % i, ['keys']) for i in range(7)],
     assume=['NaN is outside the claim; rows with the same hash code share a bucket, others need not: the order in which groups are drained is not part of the claim'])

prop('C28', 'every chain of 2 of 11 operators on every sequence of 2 (thorough: 3) rows, every chain of 3 on 1 (thorough: 2) rows, 9 chains of 3 to 10 operators; a second round; 1000 rows',
     [P('C28_chain', [1, 3], '1 operator, 3 rows', ['chain']), P('C28_chain', [2, 2], '2 operators, 2 rows', ['chain']), P('C28_chain', [3, 1], '3 operators, 1 row', ['chain']), P('C28_again', [1, 2], '1 operator, 2 rounds', ['again']),
      P('C28_again', [2, 1], '2 operators, 2 rounds', ['again'])] + [P('C28_long', [i, 2], 'long chain', ['long']) for i in range(9)] + [P('C28_many', [1000, i], '1000 rows', ['many']) for i in range(5)] + [E('C28_bare', 'rows of no values', ['bare'])] + [P('C28_reject', [k], '%d groups, all but one of which are rejected behind' % k, ['reject']) for k in (6, 100, 800)],
     [P('C28_chain', [1, 3], '1 operator, 3 rows', ['chain']), P('C28_chain', [2, 3], '2 operators, 3 rows', ['chain']), P('C28_chain', [3, 2], '3 operators, 2 rows', ['chain']), P('C28_chain', [4, 1], '4 operators, 1 row', ['chain']), P('C28_again', [1, 2], '1 operator, 2 rounds', ['again']),
      P('C28_again', [2, 2], '2 operators, 2 rounds', ['again'])] + [P('C28_long', [i, 3], 'long chain', ['long']) for i in range(9)] + [P('C28_many', [1000, i], '1000 rows', ['many']) for i in range(5)] + [E('C28_bare', 'rows of no values', ['bare'])] + [P('C28_reject', [k], '%d groups, all but one of which are rejected behind' % k, ['reject']) for k in (6, 100, 800)])


def c29(n, k, m):
    return ([P('C29_any', [i], 'every sequence of %d bytes' % i, ['error'] if i else ['accepted']) for i in range(n + 1)] + [P('C29_after', [k, w], 'every sequence of %d bytes after a valid beginning (%d)' % (k, w)) for w in range(18)] +
            [E('C29_ops', 'every operator code', ['defined', 'undefined']), E('C29_aggs', 'every aggregate code', ['defined', 'undefined']), P('C29_count', [m], 'every element count, up to %d elements' % m, ['toomany', 'complete']),
             E('C29_array', 'every array code', ['array']), E('C29_whole', 'chains of up to 3 well-formed operators', ['whole']), E('C29_cut', 'every prefix', ['cut', 'error'])])


prop('C29', 'every byte sequence of length 0 to 4 (thorough: 5), every sequence of length 2 (thorough: 3) after 18 beginnings, every operator, aggregate and array code, every element count', c29(4, 2, 3), c29(5, 3, 6),
     assume=['the trailing byte after aggregations is optional, as in the tests; more than one is outside the claim', 'a single allocation above 2 MiB while decoding these few bytes is a violation'])


def c30(h, k, r, d):
    return ([P('C30_chain', [1, 2], '1 operator, up to 2 rows', ['chain', 'returned', 'error']), P('C30_chain', [2, r], '2 operators, up to %d rows' % r, ['chain', 'returned', 'error']), P('C30_history', [h], '%d events' % h, ['history', 'rejected'])] +
            [P('C30_decode', [d if w else d + 1, w], 'every sequence of %d bytes after beginning %d' % (d if w else d + 1, w), ['decode']) for w in range(11)] +
            [P('C30_expr', [d if w else d + 1, w], 'every sequence of %d bytes after beginning %d' % (d if w else d + 1, w), ['expr']) for w in range(8)] + [E('C30_eval', '7 programs', ['eval', 'error']), E('C30_again', '', ['again', 'passed on'])] + [P('C30_much', [n, w], '%s, %d of them' % (t, n), ['much']) for w, t in enumerate(('codes with errors', 'constants', 'rows in groups', 'aggregates', 'operators')) for n in ((30, 60) if w == 4 else (100, 1000, 5000) if w == 0 else (100, 1000))])


prop('C30', 'every chain of 1 and 2 operators with up to 1 (thorough: 3) rows, every history of 4 (thorough: 5) calls, every code of 3 (thorough: 4) bytes, and 2 (thorough: 3) bytes after 18 beginnings; up to 1000 constants, groups, aggregates, bytes after an error and 300 operators',
     c30(4, 1, 1, 2), c30(5, 2, 3, 3), assume=['failing allocations are outside the claim, except for a single one above 2 MiB; what the code under test allocates once and for all is not counted'])

prop('C31', 'every byte sequence of up to 5 (thorough: 6) bytes, every text of up to 4 (thorough: 6) digits; 70000 bytes',
     [P('C31_bytes', [5], 'up to 5 bytes', ['bytes'], alts=down([2, 1]), time=60), P('C31_text', [2], 'up to 4 digits', ['text'], alts=down([1]), time=60), P('C31_each', [9], '9 bytes, one of them arbitrary', ['each']), E('C31_nibble', 'every digit', ['nibble']), P('C31_long', [70000], '', ['long'])],
     [P('C31_bytes', [6], '', ['bytes']), P('C31_text', [3], '', ['text']), P('C31_each', [24], '24 bytes, one of them arbitrary', ['each']), E('C31_nibble', 'every digit', ['nibble']), P('C31_long', [70000], '', ['long'])], assume=['text with other characters is outside the claim'])

prop('C32', 'none for numbers and booleans; strings of up to 4 (thorough: 12) arbitrary bytes; arrays of up to 2 elements',
     [E('C32_' + t, 'every value and empty', ['value', 'empty']) for t in ('i32', 'i64', 'bool', 'f32', 'f64')] + [P('C32_str', [4], '', ['value', 'empty']), E('C32_array', '', ['value']), P('C32_result', [4], 'every type', ['value', 'empty'])],
     [E('C32_' + t, 'every value and empty', ['value', 'empty']) for t in ('i32', 'i64', 'bool', 'f32', 'f64')] + [P('C32_str', [12], '', ['value', 'empty']), E('C32_array', '', ['value']), P('C32_result', [12], 'every type', ['value', 'empty'])])


_c34 = [P('C34_middle', [i], 'at and around the middle of two neighbours, %d bits' % (64 if i > 7 else 32), ['middle']) for i in range(16)]


def c34(n, ws):
    return [P('C34_f' + t, [n, w], 'up to %d arbitrary bytes after beginning %d' % (n, w), ['number']) for w in ws for t in ('64', '32')]


prop('C34', 'strings of a beginning (one of 15), up to 2 (thorough: 3 after 8 of them) arbitrary bytes and an end (one of 4); numbers of up to 61 digits at and around 16 points halfway between two values', [E('C34_none', '14 texts without a number', ['none'])] + _c34 + c34(2, range(15)),
     [E('C34_none', '', ['none'])] + _c34 + c34(2, range(15)) + c34(3, (0, 2, 5, 6, 7, 10, 11, 14)),
     assume=['other numbers whose digits, as an integer, or whose power of ten the type does not hold exactly are outside the bound; infinities, NaN, hexadecimal numbers and numbers outside the range of the type are outside the claim',
             'strtod and strtof are the models in models/models.cpp, compared with the C library on every replayed path'])

PIPES = ['FILTER', 'PROJECT', 'GROUPED AGGREGATE', 'UNGROUPED AGGREGATE', 'FILTER, PROJECT and GROUPED AGGREGATE']


def c35(rows):
    return ([P('C35_op', [g], GROUPS[g] + ': one operator in both threads, the same row or two rows', ['value']) for g in range(8)] +
            [P('C35_pair', [g], GROUPS[g] + ' in one thread, any operator in the other', ['value']) for g in range(8)] +
            [E('C35_programs', 'two of 18 programs, valid and invalid', ['programs']), E('C35_long', 'one longer program in both threads', ['value']),
             E('C35_misc', 'two of 8 other functions of the interface', ['misc'])] +
            [P('C35_rel', [a, b, rows], '%s and %s, %d rows' % (PIPES[a], PIPES[b], rows), ['rel']) for a in range(5) for b in range(a, 5)])


prop('C35', 'two threads, each evaluating any documented operator (integer operands arbitrary, others from small sets; any pair of operators on fixed operands), one of 18 programs, 8 other functions or one of 5 relational pipelines over 3 (thorough: 5) rows both read; '
     'an execution in which neither thread touches memory the other writes, without an atomic operation or a common lock in between, is the same in every interleaving', c35(3), c35(5),
     assume=['a thread orders what it did before a releasing atomic store with what the other does after an acquiring load that follows it; the initialisation of a function-local static and std::call_once happen once, before either thread sees their result',
             'a race is reported if ThreadSanitizer confirms it on the natively compiled code'])

prop('C36', 'every documented operator on operands of every combination of NULL, the six types and an array in which at least one is of the wrong type (integers and BOOLs arbitrary, other values fixed); GetValue, GetOptional and FromOperand of every type on every kind of value; '
     'aggregates of a wrong type after 0 to 2 rows, filters',
     [P('C36_op', [g], GROUPS[g] + ', at least one operand of another type', ['op', 'error'] if g != 7 else ['op', 'error']) for g in range(8)] +
     [E('C36_get', 'all types, all kinds of values', ['get']), E('C36_agg', 'SUM, MIN and MAX, grouped and not', ['agg']), E('C36_filter', 'alone and behind a projection', ['filter'])])


def c37(bits, n):
    return [E('C37_i32', 'all values', ['i32']), P('C37_i64', [bits], 'magnitudes below 2^%d' % bits, ['i64']), E('C37_edges', '10 values', ['edges']), E('C37_other', 'BOOL, NULL, names of all 256 type codes', ['other']),
            P('C37_string', [n], 'up to %d arbitrary bytes' % n, ['string']), E('C37_long', '40000 bytes, two arbitrary', ['long']), E('C37_row', 'values of all types one after another', ['row'])]


prop('C37', 'all INT32; INT64 of magnitudes below 2^54 (thorough: all) and 10 edges; BOOL; NULL; strings of up to 10 (thorough: 24) arbitrary bytes and one of 40000; all type codes', c37(54, 10), c37(64, 24),
     assume=['output streams are the templates of libstdc++ over models of number formatting, compared with the real ones on every replayed path'])

also('C01', E('C01_place', 'constants after 1 to 1000 others', ['place']))
also('C02', E('C02_place', 'constants after 1 to 1000 others', ['place']))
also('C22', E('C22_place', 'variables after 1 to 1000 values', ['place']))
also('C03', P('C03_cut', [12], 'numbers of up to 12 bytes, ended and not', ['cut', 'complete']))
also('C29', P('C29_endless', [12], 'numbers of up to 12 bytes without an end', ['endless']))
also('C20', *[P('C20_const', [g], GROUPS[g] + ', constants for some operands', ['const']) for g in range(8)])
also('C25', E('C25_two', 'two projections of up to 40 expressions in turn', ['two']))
also('C21', *[P('C21_many', [n, k], '%d evaluations: %s' % (n, w), ['many']) for k, (n, w) in enumerate(((5000, 'the same row'), (5000, 'two rows in turn'), (3000, 'decoded anew'), (3000, 'all but the last fail'), (3000, 'a runner for each'), (2000, 'all but the last fail to decode')))])
also('C26', E('C26_long', 'MIN and MAX of strings that agree up to one of 11 places (8 to 70000)', ['long']))
also('C27', P('C27_groups', [5000], '5000 groups, twice', ['groups']))
also('C28', *[P('C28_deep', [n, k, rows], '%d operators, %d rows' % (n, rows), ['deep']) for n, k, rows in ((16, 0, 2), (100, 0, 2), (40, 1, 1), (24, 2, 2), (24, 3, 2), (20, 4, 1))])
also('C37', E('C37_format', '12 values in 5 formats', ['format']))
AROUND = {'C06': [0], 'C07': [0], 'C08': [0], 'C09': [0, 1, 3, 4, 5, 6], 'C10': [7], 'C11': [2], 'C12': [1], 'C13': [3], 'C14': [4], 'C15': [5], 'C16': [4, 5], 'C17': [6], 'C18': [6], 'C19': [6]}
for _p, _g in AROUND.items():
    also(_p, *[P(_p + '_around', [g], GROUPS[g] + ' above 1 to 33 values, NULL operands', ['around']) for g in _g])
# Released addresses handed out again at once: what is remembered by address goes wrong.
also('C21', R('C21_rows', [1], 'rows one after another, NULLs', ['rows']), R('C21_history', [1, 0], '1 event', ['history']))
also('C22', R('C22_last', [4], 'up to 4 rows bound one after another', ['last']))
also('C24', R('C24_rows', [2, 5], '2 rows, NULLs', ['rows']))
also('C25', R('C25_rows', [2, 2, 0], '2 expressions, 2 rows', ['rows']))
also('C26', R('C26_rounds', [3, 1], '3 rounds of up to 1 row', ['rounds']))
also('C27', R('C27_rounds', [2, 2], '2 rounds of up to 2 rows', ['rounds']), R('C27_keys', [2, 1, 1], '2 rows, NULLs', ['keys']))
also('C28', R('C28_chain', [2, 2], '2 operators, 2 rows', ['chain']), R('C28_again', [1, 2], '1 operator, 2 rounds', ['again']))
also('C30', R('C30_chain', [2, 1], '2 operators, up to 1 row', ['chain']), R('C30_history', [4], '4 events', ['history']))
prop('C38', '10 relational codes on every sequence of 3 (thorough: 4) rows, chains whose last part fails while draining 3 (thorough: 4) groups, 5 expressions on 3 rows one after another; all values',
     [P('C38_rows', [w, 3, 0], 'code %d, 3 rows' % w, ['errors', 'none']) for w in range(10)] + [P('C38_rows', [w, 2, 1], 'code %d, 2 rows, NULLs' % w, ['errors', 'none']) for w in range(10)] +
     [P('C38_drain', [3], '3 groups', ['errors', 'none']), P('C38_eval', [3], '3 rows', ['errors', 'values'])],
     [P('C38_rows', [w, 4, 0], 'code %d, 4 rows' % w, ['errors', 'none']) for w in range(10)] + [P('C38_rows', [w, 3, 1], 'code %d, 3 rows, NULLs' % w, ['errors', 'none']) for w in range(10)] +
     [P('C38_drain', [4], '4 groups', ['errors', 'none']), P('C38_eval', [4], '4 rows', ['errors', 'values'])],
     assume=['errors raised by the evaluation of expressions; an aggregate over a column whose values have another type than the code says is outside the claim (it may have counted the row in part)'])
