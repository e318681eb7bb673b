"""at:// URIs (util.at_uri, util.parse_at_uri) and the trusted contract on urllib's urlparse."""
from theory import *
from values import *

NODELIM = Function('nodelim', Str, Bool_)     # no / ? # [ ] or control characters
URLP = Function('urlparsed', Str, Opq)
PARSEABLE = Function('url_parseable', Str, Bool_)
NETLOC, PATH = Function('url_netloc', Str, Str), Function('url_path', Str, Str)
STRIP = Function('str_strip', Str, Str, Str)
SPLIT = Function('str_split', Str, Str, Int_, Seq)
_d, _c, _k = Consts('d c k', Str)
_n = Int('n')
AT, SL = slit('at://'), slit('/')


def uri(d, c, k):
    return STR.cat_(AT, STR.cat_(d, STR.cat_(SL, STR.cat_(c, STR.cat_(SL, k)))))


def path2(c, k):
    return STR.cat_(c, STR.cat_(SL, k))


okp = lambda *xs: And(*[And(NODELIM(x), STR.len_(x) > 0) for x in xs])
axiom('url', 'urlparse of an at:// URI', FA([_d, _c, _k], Implies(okp(_d, _c, _k), And(
    PARSEABLE(uri(_d, _c, _k)), NETLOC(uri(_d, _c, _k)) == _d,
    PATH(uri(_d, _c, _k)) == STR.cat_(SL, path2(_c, _k)))), uri(_d, _c, _k)))
axiom('url', 'urlparse of a bare authority', FA([_d], Implies(okp(_d), And(
    PARSEABLE(STR.cat_(AT, _d)), NETLOC(STR.cat_(AT, _d)) == _d,
    PATH(STR.cat_(AT, _d)) == STR.empty)), STR.cat_(AT, _d)))
axiom('url', 'strip slashes', FA([_c, _k], Implies(okp(_c, _k), And(
    STRIP(STR.cat_(SL, path2(_c, _k)), SL) == path2(_c, _k))), STR.cat_(SL, path2(_c, _k))))
axiom('url', 'split at the first slash', FA([_c, _k, _n], Implies(
    And(okp(_c, _k), Or(_n >= 1, _n < 0)),
    SPLIT(path2(_c, _k), SL, _n) == SEQ.cat_(SEQ.unit_(VStr(_c)), SEQ.unit_(VStr(_k)))),
    SPLIT(path2(_c, _k), SL, _n)))


def register(reg):
    def urlparse(ex, a, kw):
        s = ex.as_str(a[0])
        if not ex.branch(PARSEABLE(s)):
            ex.raise_('ValueError')
        return VOpq(URLP(s))
    reg.libs['urllib.parse.urlparse'] = urlparse
    for n, f in (('netloc', NETLOC), ('path', PATH)):
        reg.val_methods[('VOpq', n)] = ('attr', lambda ex, o, f=f: VStr(f(
            acc('VOpq', 0, o).arg(0))))
    d, c_, k = Consts('did_ coll_ rkey_', Str)
    empty = lambda c: Or(*[STR.len_(c.s(n)) == 0 for n in ('did', 'collection', 'rkey')])
    reg.add('util.at_uri', params={'did': 'str', 'collection': 'str', 'rkey': 'str'},
            returns='str', raises=[('AssertionError', empty)],
            ensures=lambda c, r: [('the URI', acc('VStr', 0, r) == uri(
                c.s('did'), c.s('collection'), c.s('rkey')))])
    U = lambda c: acc('VStr', 0, c.v('uri'))

    def res(ex, c):
        return VTup(ex.fresh('parts', Seq))
    el = lambda r, i: SEQ.at_(acc('VTup', 0, r), i)
    reg.add('util.parse_at_uri', params={'uri': 'opt:str'}, result=res,
            ensures=lambda c, r: [
                ('only at:// URIs are accepted', startswith(U(c), AT)),
                ('three parts', SEQ.len_(acc('VTup', 0, r)) == 3),
                ('inverse of at_uri', FA([d, c_, k], Implies(
                    And(okp(d, c_, k), U(c) == uri(d, c_, k)),
                    acc('VTup', 0, r) == SEQ.cat_(SEQ.unit_(VStr(d)), SEQ.cat_(
                        SEQ.unit_(VStr(c_)), SEQ.unit_(VStr(k))))), uri(d, c_, k))),
                ('authority', FA([d], Implies(And(okp(d), U(c) == STR.cat_(AT, d)),
                                              el(r, 0) == VStr(d)), STR.cat_(AT, d))),
                ('strings', And(RECOG['VStr'](el(r, 0)), RECOG['VStr'](el(r, 1))))],
            raises=[('ValueError', None, lambda c: [
                ('never for a well-formed URI', FA([d, c_, k], Implies(
                    okp(d, c_, k), Or(c.v('uri') == VNone, U(c) != uri(d, c_, k))),
                    uri(d, c_, k))),
                ('nor for a bare authority', FA([d], Implies(okp(d), Or(
                    c.v('uri') == VNone, U(c) != STR.cat_(AT, d))), STR.cat_(AT, d)))])])
