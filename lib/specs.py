"""Jobs and bounds of every check.  A job = one harness + parameters; the
parameter p0 fixes the first choice so that jobs run in parallel."""


def parts(name, harness, n, params, **kw):
    return [dict(name='%s/%d' % (name, i), harness=harness, params=dict(params, p0=i), **kw) for i in range(n)]


def one(name, harness, params=None, **kw):
    return [dict(name=name, harness=harness, params=params or {}, **kw)]


W32 = ['CH=char32_t']; W16 = ['CH=char16_t']; ID8 = ['IDT=uint8_t']; ID32 = ['IDT=uint32_t']
CHECKS = {}
NOT_APPLICABLE = {
    'C05': "No decidable oracle: lexertl approximates non-greedy repetition by pruning transitions out of end states (its own test suite marks one result as wrong), so 'first possible end' is not what nested or repeated non-greedy operators promise; solver-based checking needs an exact assertion. Mixed greedy/non-greedy lexers are still executed for memory safety under C26.",
    'C36': "narrow() documents that it is only meaningful for ASCII text (it casts each character), so the distinctness this property asks for is not promised for wide text; the spelling of characters in dumps, which is promised, is decided under C32.",
}


def check(pid, covers, bounds, assumptions=(), prepare=None, must_compile=None):
    def deco(f):
        CHECKS[pid] = dict(jobs=f, covers=covers, bounds=bounds, assumptions=list(assumptions), prepare=prepare, must_compile=must_compile)
        return f
    return deco


LS = 'lexseq.cpp'


@check('C01', ['match', 'nomatch'], {
    'quick': 'sets of 1..3 rules from a pool of 12 regexes (1728 ordered triples; ids 40000,7,7; user ids), first token of a text of 3 symbolic chars, plus whole-text scans of 4 chars for 1/12 of the sets; 8- and 32-bit id types, char32_t for a sample',
    'thorough': 'as quick with texts of 5 chars for all sets, scans of 5 chars, all id types'})
def C01(t):
    q = t == 'quick'
    return (parts('plain', LS, 12, dict(fam=1, L=3 if q else 5, steps=1)) +
            parts('scan', LS, 12, dict(fam=1, L=4 if q else 5, thin=12 if q else 1)) +
            parts('id8', LS, 4, dict(fam=1, L=3, steps=1, idmask=0xff, thin=12 if q else 1), defs=ID8) +
            parts('id32', LS, 4, dict(fam=1, L=3, steps=1, thin=12 if q else 1), defs=ID32) +
            parts('w32', LS, 4, dict(fam=1, L=2 if q else 3, steps=1, thin=24 if q else 2), defs=W32))


@check('C02', ['match', 'nomatch', 'nullable'], {
    'quick': 'every regex tree with up to 3 leaves (6 leaf kinds, concatenation, alternation, * + ?), texts of up to 4 symbolic chars',
    'thorough': 'trees with up to 4 leaves, texts of 5 chars'})
def C02(t):
    r = one('s2', 'regex1.cpp', dict(size=2, un=2)) + one('s3', 'regex1.cpp', dict(size=3, un=1))
    q = t == 'quick'
    r += parts('d3', 'regex1.cpp', 2, dict(size=3, un=3, dist=1, thin=2 if q else 1)) + parts('d4', 'regex1.cpp', 3, dict(size=4, un=3, dist=1, thin=16 if q else 6))
    if t != 'quick':
        r += one('s3u2', 'regex1.cpp', dict(size=3, un=2, L=5))
    return r


@check('C12', ['match', 'nomatch', 'eoi', 'clash'], {
    'quick': 'pairs of rules from a pool of 12 with every combination of ^ and $ (2304 sets), whole scan of 3 symbolic chars; triples from a pool of 12 rules consuming line breaks next to $ rules (1/4 of them), weaker oracle; initial bol both ways for a sample',
    'thorough': 'texts of 4 chars, all triples, char32_t sample'})
def C12(t):
    q = t == 'quick'
    return (parts('anch', LS, 12, dict(fam=2, L=3 if q else 5)) +
            parts('clash', LS, 12, dict(fam=7, L=3, thin=4 if q else 1)) +
            parts('alt', LS, 8, dict(fam=10, L=3, thin=3 if q else 1)) +
            parts('bol', LS, 6, dict(fam=2, L=2, initbol=3, thin=2 if q else 1)) +
            parts('w', LS, 4, dict(fam=2, L=2, thin=6 if q else 1), defs=W32) +
            ([] if q else parts('tri', LS, 12, dict(fam=2, L=3, rules=3, thin=8))))


@check('C13', ['match', 'nomatch', 'eoi', 'state'], {
    'quick': '3 start states; 2 rules over all subsets of states, every goto, + a rule common to all (thinned 1/4); 3 rules (1/6); whole scan of 3 symbolic chars; start from every state with 2 chars',
    'thorough': 'all rule sets, texts of 4 chars'})
def C13(t):
    q = t == 'quick'
    return (parts('st', LS, 6, dict(fam=3, L=3 if q else 4, thin=4 if q else 1)) +
            parts('st3', LS, 6, dict(fam=3, L=3, rules=3, small=1, thin=8 if q else 1)) +
            parts('any', LS, 6, dict(fam=3, L=2, anystate=1, thin=4 if q else 1)) +
            parts('bol', LS, 6, dict(fam=3, L=3, bolstate=1, thin=24 if q else 2)) +
            parts('id8', LS, 3, dict(fam=3, L=2, anystate=1, thin=12 if q else 2), defs=ID8))


@check('C14', ['match', 'eoi', 'deep', 'underflow'], {
    'quick': '3 states, push/pop rules in all state subsets of the family, exit states, skip/no-id variants; whole scan of 3..4 symbolic chars (1/4 of the sets at 4)',
    'thorough': 'texts of 5 chars'})
def C14(t):
    q = t == 'quick'
    return (parts('stack', LS, 4, dict(fam=4, L=3)) + parts('stack4', LS, 4, dict(fam=4, L=4 if q else 5, thin=6 if q else 1)) +
            parts('stack5', LS, 4, dict(fam=4, L=5 if q else 6, thin=40 if q else 8, thinr=1)))


@check('C15', ['match', 'nomatch', 'eoi'], {
    'quick': '3 rules of 6 patterns each plain/skip/no-id (5832 sets), whole scan of 3 symbolic chars (4 chars for 1/6); with anchors on a sample; skip / no-id rules that push and pop (1/4 of the C14 family)',
    'thorough': 'texts of 5 chars'})
def C15(t):
    q = t == 'quick'
    return (parts('sk', LS, 6, dict(fam=5, L=3 if q else 4)) + parts('sk4', LS, 6, dict(fam=5, L=4 if q else 5, thin=8 if q else 2)) +
            parts('anch', LS, 6, dict(fam=5, L=3, anch=1, thin=60 if q else 6)) +
            parts('stack', LS, 4, dict(fam=4, L=3, thin=4 if q else 1)))


@check('C03', ['match', 'nomatch', 'nullable', 'number', 'rejected number'], {
    'quick': '12 operands (nullable, nested, grouped) x 16 count forms up to 4 x 12 contexts, texts of 6 symbolic chars; 10 count forms up to 11 over 4 operands x 3 contexts, texts of 9 chars; counts of 2 to 25 digits (d00..02, symbolic d): those beyond size_t rejected',
    'thorough': 'texts of 8 chars; the large counts with 12 chars'})
def C03(t):
    q = t == 'quick'
    return (parts('rep', 'rep.cpp', 12, dict(L=6 if q else 8)) +
            parts('big', 'rep.cpp', 4, dict(L=9 if q else 12, q0=16, nq=10, nc=3 if q else 6)) +
            one('num', 'numbers.cpp', dict(mode=1, lo=1, w=24)) + one('nummin', 'numbers.cpp', dict(mode=1, min=1, lo=1, w=24)))


def eqv(tab, L, n=8, L2=None):
    return (parts('tab', 'eqv.cpp', n, dict(tab=tab, L=L, parts=n)) + parts('second', 'eqv.cpp', n, dict(tab=tab, L=L2 or L, second=1, parts=n)))


def bytes_(forms, icase=0):
    two = forms & 0x4218
    return parts('byte', 'bytes.cpp', 4, dict(forms=forms & ~0x4218, icase=icase, parts=4)) + (one('range', 'bytes.cpp', dict(forms=two, icase=icase)) if two else [])


@check('C06', ['match', 'nomatch', 'rejected'], {
    'quick': 'every entry of table T6 (harness/tables.h: charset spellings, classes, negations, dot variants, malformed sets), texts of 2 symbolic chars (1 for char16_t and char32_t), alone and next to a second rule; every byte in 7 charset spellings and ranges over 23 end points, against every input character',
    'thorough': 'texts of 3 chars (2 wide)'})
def C06(t):
    q = t == 'quick'
    return bytes_(0x4f1e | 0x8000) + eqv(6, 2 if q else 3) + parts('w32', 'eqv.cpp', 4, dict(tab=6, L=1 if q else 2, parts=4), defs=W32) + parts('w16', 'eqv.cpp', 4, dict(tab=6, L=1 if q else 2, parts=4), defs=W16)


@check('C08', ['match', 'nomatch', 'rejected'], {
    'quick': 'every entry of table T8 (harness/tables.h: ignore-case literals, sets, strings, inline option groups), texts of 5 symbolic chars, alone and next to a second rule; every byte in 12 spellings and ranges over 23 end points, ignoring case, against every input character',
    'thorough': 'texts of 6 chars'})
def C08(t):
    q = t == 'quick'
    return bytes_(0xffff, 1) + eqv(8, 5 if q else 6)


@check('C33', ['match', 'nomatch', 'rejected', 'number', 'rejected number'], {
    'quick': 'every entry of table T33 (harness/tables.h: escapes, quoted strings, comments, ignored white space, malformed forms), texts of 4 symbolic chars (2 for char32_t), alone and next to a second rule; every byte in 6 spellings against every input character; \\x escapes of 2 to 25 digits (d00..01, symbolic d)',
    'thorough': 'texts of 5 chars (3 wide)'})
def C33(t):
    q = t == 'quick'
    return one('num', 'numbers.cpp', dict(mode=0, lo=1, w=24)) + bytes_(0x30e1) + eqv(33, 4 if q else 5) + parts('w32', 'eqv.cpp', 4, dict(tab=33, L=2 if q else 3, parts=4), defs=W32)


@check('C30', ['match', 'nomatch', 'rejected'], {
    'quick': 'every entry of table T30 (harness/tables.h: chains of {+} and {-} over sets, shorthands, macros; empty differences, malformed forms), texts of 3 symbolic chars (1 for char32_t)',
    'thorough': 'texts of 4 chars (2 wide)'})
def C30(t):
    q = t == 'quick'
    return eqv(30, 3 if q else 4) + parts('w32', 'eqv.cpp', 4, dict(tab=30, L=1 if q else 2, parts=4), defs=W32)


@check('C29', ['match', 'nomatch', 'rejected'], {
    'quick': 'every entry of table T29 (harness/tables.h: macros repeated, nested, under every operator; malformed references), texts of 5 symbolic chars; alone and next to a second rule',
    'thorough': 'texts of 6 chars'})
def C29(t):
    q = t == 'quick'
    return eqv(29, 5 if q else 6)


@check('C07', ['insert', 'union', 'negate', 'intersect', 'remove', 'queries', 'proper overlap'], {
    'quick': 'string_token<char, char16_t, char32_t>: every operation on arbitrary normalised operands with up to 3 ranges (insert, complement), 2 x 2 ranges (binary operations; 3 in all for the wide types), all bounds and the probed character symbolic over the full type (char32_t: up to 0x10ffff)',
    'thorough': 'up to 4 ranges, 3 x 3 for the binary operations'})
def C07(t):
    q = t == 'quick'; r = []
    for n, d in (('c', []), ('u16', W16), ('u32', W32)):
        for op in range(6):
            m = (3 if q else 4) if op in (0, 2) else 2 if q else 3
            for a in range(m + 1):
                for b in range(0 if op in (0, 2) else 1, 1 if op in (0, 2) else m + 1):
                    if q and (a + b > 3 and n != 'c' or op == 5 and b > 1):
                        continue
                    r += one('%s/op%d.%d.%d' % (n, op, a, b), 'tokset.cpp', dict(op=op, na=a, nb=b), defs=d, weight=a + b + (op == 3))
    return r


SM = 'same.cpp'


def fams(name, mode, what, L, thin, defs=(), sel=(1, 2, 3, 4, 5, 6, 8), n=4):
    r = []
    for f in sel:
        r += parts('%s.f%d' % (name, f), SM, n, dict(mode=mode, what=what, fam=f, L=L, thin=thin * {1: 12, 2: 8, 3: 16, 4: 8, 5: 24, 6: 24, 8: 1}[f]), defs=list(defs))
    return r


@check('C16', ['match', 'nomatch', 'eoi', 'smaller', 'underflow'], {
    'quick': 'table and character machines: rule sets of seven families (priorities, anchors, start states, stack, skip/no-id, mixed, nearly equal end states), thinned; texts of 3 symbolic chars; rows counted per start state; char32_t sample',
    'thorough': 'texts of 4 chars, no thinning of the merge family, char32_t'})
def C16(t):
    q = t == 'quick'; L = 3 if q else 4; th = 1
    return fams('tab', 16, 0, L, th) + fams('csm', 16, 1, L, th) + fams('tab32', 16, 0, 2, 2, W32, (2, 8))


@check('C18', ['match', 'nomatch', 'eoi', 'underflow'], {
    'quick': 'character machines generated directly, converted with sm_to_csm, and converted after minimising, against table lookup: rule sets of seven families, thinned; texts of 3 symbolic chars; char32_t generated machines (sample)',
    'thorough': 'texts of 4 chars'})
def C18(t):
    q = t == 'quick'; L = 3 if q else 4; th = 1
    return fams('gen', 18, 0, L, th) + fams('conv', 18, 1, L, th) + fams('convmin', 18, 2, L, th) + fams('gen32', 18, 0, 2, 16, W32, (2, 8))


def sel(name, harness, params, fams, defs=(), n=4, f0={}):
    """fams: {family: thin}"""
    r = []
    for f, th in fams.items():
        r += parts('%s.f%d' % (name, f), harness, n, dict(params, fam=f, thin=th, **f0.get(f, {})), defs=list(defs))
    return r


@check('C04', ['match', 'nomatch', 'eoi', 'open end', 'joined'], {
    'quick': 'rule sets of five families (priorities, anchors, start states, skip/no-id with and without anchors), thinned; texts of 4 symbolic chars, run to the end of input and two calls beyond; a twin lexer whose skip/no-id rules carry ids gives the expected joining; char32_t sample (characters up to 255)',
    'thorough': 'texts of 5 chars, less thinning'})
def C04(t):
    q = t == 'quick'; L = 4 if q else 5; k = 1 if q else 4
    return (sel('t', 'tile.cpp', dict(L=L), {1: 12 // k, 2: 12 // k, 3: 40 // k, 5: 24 // k}) + sel('st', 'tile.cpp', dict(L=3, anystate=1), {3: 24 // k}) +
            sel('an', 'tile.cpp', dict(L=3, anch=1), {5: 100 // k}) + sel('w', 'tile.cpp', dict(L=2, low=1), {5: 48 // k}, W32))


@check('C21', ['end', 'copy', 'range', 'underflow'], {
    'quick': 'rule sets of five families, thinned; texts of 3 symbolic chars; raw pointer and string iterators; copies taken at every position; any initial state and line-start flag',
    'thorough': 'texts of 4 chars, less thinning'})
def C21(t):
    q = t == 'quick'; L = 3 if q else 4; k = 1 if q else 4; r = []
    for how in range(3):
        r += sel('h%d' % how, 'iter.cpp', dict(L=L, how=how), {1: 48 // k, 2: 48 // k, 3: 60 // k, 4: 24 // k, 5: 60 // k})
    return r + sel('str', 'iter.cpp', dict(L=L, how=1, str=1), {4: 24 // k, 5: 60 // k}) + sel('any', 'iter.cpp', dict(L=2, anystate=1), {3: 24 // k, 4: 24 // k}) + sel('w', 'iter.cpp', dict(L=2, low=1), {5: 100 // k}, W32)


@check('C35', ['cleared', 'rescanned', 'underflow'], {
    'quick': 'rule sets of four families, thinned; texts of 3 symbolic chars; after every token every accessor with all offsets; clear/reset after every number of tokens; raw pointer and string iterators, plain and recursive results; char32_t sample',
    'thorough': 'texts of 4 chars, less thinning'}, must_compile='subview')
def C35(t):
    q = t == 'quick'; L = 3 if q else 4; k = 1 if q else 4; F = {2: 96 // k, 3: 100 // k, 4: 40 // k, 5: 160 // k}
    return sel('p', 'results.cpp', dict(L=L), F) + sel('s', 'results.cpp', dict(L=L, str=1), F) + sel('w', 'results.cpp', dict(L=2, low=1), {5: 160 // k}, W32)


@check('C22', ['match', 'nomatch', 'gap', 'rest', 'pointers'], {
    'quick': 'all 18 overloads of replace on rule sets of skip/no-id/plain rules (thinned), texts of 3 symbolic chars, replacement texts of 0..2 symbolic chars; raw pointer output of exactly the needed size; char32_t sample',
    'thorough': 'texts of 4 chars'}, ['a one-character unknown token counts as a match, as documented in README.md'])
def C22(t):
    q = t == 'quick'; L = 3 if q else 4; r = []
    for form in range(4):
        r += sel('f%d' % form, 'repl.cpp', dict(L=L, form=form), {5: 80 if q else 20, 1: 90 if q else 30})
    return r + sel('w', 'repl.cpp', dict(L=2, form=2, low=1), {5: 160 if q else 40}, W32)


@check('C19', ['valid', 'several', 'malformed', 'truncated', 'back', 'valid 16', 'malformed 16'], {
    'quick': 'every byte string of up to 6 bytes (pointer to char; 5 for string iterators and unsigned char) in a buffer of exactly that size; pre-/post-increment, copies, + and -; every string of up to 3 UTF-16 units',
    'thorough': 'up to 8 bytes (7), 4 units'})
def C19(t):
    q = t == 'quick'; n = 6 if q else 8
    return one('p', 'utf.cpp', dict(mode=19, L=n), weight=3) + one('s', 'utf.cpp', dict(mode=19, L=n - 1, base=1)) + one('u', 'utf.cpp', dict(mode=19, L=n - 1, base=2)) + one('16', 'utf.cpp', dict(mode=16, L=3 if q else 4)) + one('w', 'utf.cpp', dict(mode=16, L=3 if q else 4, base=1))


@check('C20', ['to utf-8', 'to utf-16', 'from utf-8', 'from utf-16', '8 to 16', '16 to 8', 'copied', 'flip'], {
    'quick': 'every sequence of up to 2 Unicode scalar values through each of the 9 encoder/decoder/converter/flip combinations; pre- and post-increment, a copy taken at every position',
    'thorough': 'sequences of 3'})
def C20(t):
    return [j for w in range(9) for j in one('w%d' % w, 'utf.cpp', dict(mode=20, what=w, L=2 if t == 'quick' else 3))]


@check('C17', ['loaded', 'mismatch', 'two machines', 'empty'], {
    'quick': 'machines from a family of multi-state lexers (and a stack family), with one value holding a symbolic byte (at every byte position, the other bytes all 0, all 255 or mixed) in each kind of field; char, char16_t and char32_t machines with 8-, 16- and 32-bit ids over narrow streams; mismatching sizes; two machines in one stream',
    'thorough': 'more machines of the families'})
def C17(t):
    q = t == 'quick'; r = []
    for n, d in (('c16', []), ('c8', ID8), ('c32', ID32), ('u32', W32), ('u16', W16)):
        for w in range(8):
            r += one('%s/w%d' % (n, w), 'serial.cpp', dict(what=w, fam=3 if w % 2 else 4, thin=(16000 if w % 2 else 800) // (1 if q else 10)), defs=d)
    return r


@check('C27', ['failed', 'too large', 'rebuilt', 'cleared rules'], {
    'quick': 'targets and rebuilt lexers from five families (thinned), table and character machines, plain and minimised; builds failing in 8 ways (empty state, nullable rules, hidden rule, no rules, 8-bit ids: too many rows / characters); three different previous contents; texts of 2 symbolic chars',
    'thorough': 'more lexers, texts of 4 chars'})
def C27(t):
    q = t == 'quick'; L = 2 if q else 4; k = 1 if q else 4; F = {2: 160 // k, 3: 200 // k, 4: 80 // k, 5: 300 // k, 6: 300 // k}; r = []
    for w in (0, 1, 2, 3):
        r += sel('w%d' % w, 'build.cpp', dict(L=L, what=w), F)
    return r + sel('id8', 'build.cpp', dict(L=L, what=0, idmask=255), {5: 3000 // k}, ID8) + sel('u', 'build.cpp', dict(L=1, what=1, low=1), {5: 300 // k}, W32)


@check('C34', ['built', 'allowed', 'empty state', 'matches nothing', 'never wins'], {
    'quick': 'sets of 2 rules from a pool of 18 (nullable, overlapping, shadowed) with every ^/$ combination in 1 or 2 start states (thinned 1/60), and thinned sets of 3; four flag combinations; a rule counts as reportable when some text of up to 3 chars (4 for the three-rule sets; solver query over all of them) makes it the reported match',
    'thorough': 'all pairs, more triples, char32_t'}, ['a rule with ^ or $ whose body can be empty is accepted by the library and never reports an empty match'])
def C34(t):
    q = t == 'quick'
    return parts('pair', 'errors.cpp', 18, dict(rules=2, L=3 if q else 4, thin=60 if q else 2)) + parts('tri', 'errors.cpp', 6, dict(rules=3, L=4, thin=1500 if q else 60)) + parts('prio', 'errors.cpp', 12, dict(fam=1, L=4, thin=30 if q else 1))


@check('C28', ['bad state', 'known state', 'new state', 'bad macro', 'undefined macro', 'macro used', 'macro redefined', 'reserved id', 'skip id', 'plain id', 'rejected', 'pop', 'push', 'push exit', 'goto', 'stay'], {
    'quick': 'state and macro names of up to 3 and 2 symbolic characters; every id and user id (8, 16, 32 bit) through six forms of push; state lists and destinations made of a prefix (five, six of them) and up to 3 symbolic characters, with and without an id, with good and bad regexes; 8 kinds of rejected macro; char32_t samples',
    'thorough': 'the same with char16_t'}, ['an empty state list, a trailing comma and text after < have no documented meaning and are left out'])
def C28(t):
    r = []
    for n, d in [('c', []), ('w', W32)] + ([] if t == 'quick' else [('u', W16)]):
        for w in range(5):
            r += [j for k in range(2 if w == 4 else 1) for j in one('%s/w%d.%d' % (n, w, k), 'api.cpp', dict(what=w, side=k, low=n == 'w' and w == 4), defs=d)]
    return r + one('id8', 'api.cpp', dict(what=3), defs=ID8) + one('id32', 'api.cpp', dict(what=3), defs=ID32)


def wide(name, params, n, defs=()):
    return parts(name, 'wide.cpp', n, dict(params, parts=n), defs=list(defs))


@check('C11', ['match', 'second', 'nomatch', 'empty'], {
    'quick': 'char32_t (24 boundary values: on, before and after byte and plane boundaries) and char16_t (16 values): every single range and its complement with X+ on 2 symbolic chars; pairs of ranges in one set (thinned); two sets as XY|Y+ next to X (thinned)',
    'thorough': 'the pairs and two-set families 12 times denser, texts of 3 chars'})
def C11(t):
    q = t == 'quick'; k = 1 if q else 12; L = 2 if q else 3; r = []
    for n, d, a, b in (('w', W32, 1500, 5400), ('u', W16, 60, 180)):
        w = 4 if n == 'w' else 1
        r += wide('%s/one' % n, dict(L=1, thin=2 * w // 3 if q else 1), 4, d) + wide('%s/plus' % n, dict(L=2, thin=12 * w if q else 3), 4, d) + wide('%s/two' % n, dict(L=L, two=1, thin=a // k), 4, d) + wide('%s/sets' % n, dict(L=2, sets=2, thin=b // k), 4, d)
    return r


def _uni(repo, tmp, here):
    import unidata
    unidata.write(repo, tmp, here)


@check('C09', ['match', 'nomatch', 'negated', 'case kept'], {
    'quick': 'char32_t and char16_t: every letter with a simple case mapping in UnicodeData.txt alone, and ranges on, inside, across and around every run of mappings (6914 charsets; plain, negated, inline option, without the option); one symbolic character',
    'thorough': 'the same'}, prepare=_uni)
def C09(t):
    q = t == 'quick'
    return parts('w', 'unicode.cpp', 8, dict(mode=9, parts=8), defs=W32) + parts('u', 'unicode.cpp', 4, dict(mode=9, parts=4), defs=W16)


@check('C10', ['match', 'nomatch'], {
    'quick': 'every general category, group, script (Is...) and block (In...) of the shipped data files, as \\p{X}, [^\\p{X}] and (1/7) [_\\p{X}], char32_t, one symbolic character',
    'thorough': 'the same'}, prepare=_uni)
def C10(t):
    return parts('p', 'unicode.cpp', 32, dict(mode=10, parts=32, thin=1), defs=W32, steps=3000000000)


@check('C31', ['match', 'nomatch', 'eoi', 'reversed', 'twice', 'nullable'], {
    'quick': 'regex trees with up to 3 leaves; 12 operands x 16 counts x 12 contexts; rule sets of four families (priorities, anchors without line breaks in the rules, start states, skip/no-id), thinned; reversed once and twice; texts of 3..5 symbolic chars',
    'thorough': 'less thinning, texts of 4..6 chars'}, ['greedy rules; a reversed macro is not used by rules added later'])
def C31(t):
    q = t == 'quick'; k = 1 if q else 4
    r = one('s3', 'regex1.cpp', dict(size=3, un=1, rev=1)) + one('s2', 'regex1.cpp', dict(size=2, un=2, rev=1)) + parts('rep', 'rep.cpp', 12, dict(L=5 if q else 6, rev=3, thin=2 if q else 1))
    return r + sel('f', LS, dict(L=3 if q else 4, rev=3, nonl=1), {1: 8 // k, 2: 4 // k, 3: 16 // k, 5: 24 // k})


@check('C23', ['end', 'longer than the buffer', 'kept', 'iterator', 'went back', 'other stream'], {
    'quick': 'families of rules (longest match, anchors, start states, skip/no id; thinned); buffer sizes 1..4 and growth steps 1..3; texts of 3..4 symbolic chars; with nothing, the first token, or every token kept alive, through the lexer iterator, going back to a saved position, and handing one stream\'s results to a variable that held another\'s',
    'thorough': 'denser, texts of 5 chars, char32_t streams'}, ['istream::read delivers all characters up to the end of the stream'])
def C23(t):
    q = t == 'quick'; k = 1 if q else 8; r = []
    for m in range(6):
        for f, th, L in ((1, 80, 4), (2, 40, 3), (3, 240, 3), (5, 200, 3)):
            r += one('m%d/f%d' % (m, f), 'stream.cpp', dict(mode=m, fam=f, L=L if q else 5, thin=max(1, th // k), bufs=4, incs=3 if q else 4))
    return r


@check('C24', ['close', 'contents shown', 'empty file', 'fstat fails', 'mmap fails', 'new', 'nothing shown', 'open', 'open fails'], {
    'quick': 'char and char32_t files; every outcome of open (failure, a descriptor that may be 0), fstat (failure, any size up to 2^24-1, symbolic), mmap (failure, empty file); histories of a constructor, 2 operations (open, close, destroy and construct) and the destructor',
    'thorough': '3 operations'}, ['POSIX branch; the system calls are replaced by recording stand-ins; a released length counts by 4096-byte pages'])
def C24(t):
    return [j for n, d in (('c', 'char'), ('w', 'char32_t')) for j in one(n, 'mfile.cpp', dict(ops=2 if t == 'quick' else 3), defs=['MFCH=' + d])]


def _gen(repo, tmp, here):
    import subprocess, os
    ex = os.path.join(tmp, 'genmain')
    r = subprocess.run(['clang++-18', '-std=c++17', '-O1', '-w', '-I' + os.path.join(repo, 'include'), '-I' + os.path.join(here, 'harness'), os.path.join(here, 'harness', 'genmain.cpp'), '-o', ex], stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise RuntimeError('genmain.cpp does not compile: ' + r.stderr[-2000:])
    with open(os.path.join(tmp, 'gen_lexers.hpp'), 'w') as f:
        subprocess.run([ex, str(NGEN[0]), str(NGEN[1])], stdout=f, check=True)


NGEN = (108, 27)


@check('C25', ['match', 'nomatch', 'eoi', 'stack', 'state', 'underflow'], {
    'quick': 'emitted code of 108 lexers (char) and 27 (char32_t) drawn from eight families (priorities, anchors, start states up to 12, stack, skip/no-id, merges, anchored alternations, one-state push/pop), both table forms; texts of 5 symbolic chars (char32_t: 1, and 3 below U+0100), both beginning-of-line settings',
    'thorough': 'texts of 6 chars (char32_t: 1, and 4 below U+0100)'}, ['the emitted text is compiled with clang++-18'], prepare=_gen, must_compile='gen_lexers.hpp')
def C25(t):
    q = t == 'quick'; r = []
    for p in (0, 1):
        for k in range(0, NGEN[0], 27):
            r += one('c%d/%d' % (p, k), 'gencpp.cpp', dict(lo=k, hi=k + 27, ptr=p, L=5 if q else 6))
        r += one('w%d' % p, 'gencpp.cpp', dict(lo=0, hi=NGEN[1], ptr=p, L=1), defs=W32) + one('wl%d' % p, 'gencpp.cpp', dict(lo=0, hi=NGEN[1], ptr=p, L=3 if q else 4, low=1), defs=W32)
    return r


@check('C32', ['match', 'char machine', 'nomatch', 'eoi', 'end state', 'BOL', 'EOL', 'minimised', 'underflow'], {
    'quick': 'text dumps (with and without start-state names) of machines for eight rule families and 1089 pairs of character sets (brackets, dashes, carets, escapes, control and high characters), plain and minimised, read back under the regex syntax of the library; texts of 2-3 symbolic chars; uint8_t ids and wchar_t (texts below U+0100) samples',
    'thorough': 'thinning halved, texts of 3-4'})
def C32(t):
    q = t == 'quick'; m = 2 if q else 1
    f = {1: 24 * m, 2: 12 * m, 3: 32 * m, 4: 12 * m, 5: 24 * m, 6: 24 * m, 8: 2 * m, 10: 6 * m}
    r = sel('c', 'dump.cpp', dict(L=3 if q else 4), f, n=1)
    r += parts('set', 'dump.cpp', 4, dict(fam=30, L=2 if q else 3, thin=1))
    r += sel('i8', 'dump.cpp', dict(L=2), {4: 24 * m, 6: 48 * m}, ID8, n=1)
    return r + one('w', 'dump.cpp', dict(fam=30, L=2, thin=4 * m, low=1), defs=['CH=wchar_t'])


@check('C26', ['accepted', 'rejected', 'built', 'not built', 'lexed'], {
    'quick': 'adding: every text of up to 5 bytes (all 256 values, symbolic), every text of 4 bytes after each of 19 prefixes (open bracket, brace, escape, property, quote, comment, option ...), texts of 4 under icase/skip_ws/match_zero_len, macro bodies of 4; wide patterns of 2-3 characters after each prefix; adding, building, minimising and lexing 2 symbolic chars: every sequence of 3 out of 32 pattern pieces (4 for four first pieces), three flag sets, char32_t sample',
    'thorough': 'texts of 6 bytes behind the prefixes 5, every sequence of 4 pieces'}, ['repeat counts are at most three digits when a rule is built: the size of the tree grows with the count'])
def C26(t):
    q = t == 'quick'; H = 'anyre.cpp'; r = one('b5', H, dict(mode=0, n=5))
    for f in (3, 10, 27):
        r += one('f%d' % f, H, dict(mode=0, n=4, flags=f))
    for p in range(1, 20):
        r += one('p%d' % p, H, dict(mode=0, n=4 if q or p in (2, 7, 12, 15) else 5, pre=p))
        r += one('w%d' % p, H, dict(mode=0, n={3: 2, 14: 1}.get(p, 3), pre=p), defs=['RC=char32_t'] + W32)
    r += one('w0', H, dict(mode=0, n=3), defs=['RC=char32_t'] + W32) + one('m', H, dict(mode=0, n=4, macro=1))
    for lo in range(0, 32, 4):
        r += one('q%d' % lo, H, dict(mode=1, n=3, lo=lo, w=4))
    for f in (3, 10, 27):
        r += one('qf%d' % f, H, dict(mode=1, n=2 if q else 3, flags=f))
    r += one('qf18', H, dict(mode=1, n=3, flags=18, w=8)) + one('q32', H, dict(mode=1, n=2, flags=3), defs=W32) + one('q32b', H, dict(mode=1, n=3, lo=0, w=2), defs=W32) + one('q32c', H, dict(mode=1, n=3, lo=5, w=1), defs=W32)
    for lo in ((0, 1, 3, 15) if q else range(32)):
        r += one('r%d' % lo, H, dict(mode=1, n=4, lo=lo, w=1))
    return r


@check('C37', ['same tokens', 'rejected'], {
    'quick': 'uint8_t against uint32_t ids around every limit: 47-56 pairs of rules where "$" adds rows, 170-179 rules, one rule of 249-258 rows and two rules of 247-262 rows, 240-256 columns with and without "$", a chain of 250-259 start states (texts of up to 258 characters, all but the last 2 fixed), 90-94 classes, two start states with 244-282 rules in all, the same with a last rule that can never win; texts of 1-3 symbolic chars',
    'thorough': 'texts one longer; char32_t sample'})
def C37(t):
    q = t == 'quick'; k = 0 if q else 1; H = 'idlimit.cpp'
    r = one('eol', H, dict(shape=0, lo=47, w=10, L=3)) + one('rules', H, dict(shape=1, lo=170, w=10, L=1 + k)) + one('rows', H, dict(shape=2, lo=249, w=10, L=2 + k)) + one('rows2', H, dict(shape=6, lo=244, w=12, L=2 + k)) + one('cols', H, dict(shape=8, lo=240, w=17, L=2)) + one('colseol', H, dict(shape=9, lo=240, w=17, L=2)) + one('chain', H, dict(shape=7, lo=250, w=10, L=2)) + one('short', H, dict(shape=6, short=1, lo=244, w=12, L=2)) + one('classes', H, dict(shape=3, lo=90, w=5, L=2))
    r += one('states', H, dict(shape=4, lo=122, w=20, L=2 + k)) + one('hidden', H, dict(shape=5, lo=120, w=20, L=1 + k))
    return r if q else r + one('eol32', H, dict(shape=0, lo=20, w=40, L=2, low=1), defs=W32)
