"""The C interface as declared in voikko.h, called from Python with prototypes of our own; every answer becomes a plain Python value."""
from ctypes import *
W = POINTER(c_wchar)
class Lib:
    def __init__(self, path):
        L = self.L = CDLL(path)
        def f(name, res, *args):
            g = getattr(L, name); g.restype = res; g.argtypes = args; setattr(self, name, g)
        P = c_void_p
        f('voikkoInit', P, POINTER(P), c_char_p, c_char_p); f('voikkoTerminate', None, P)
        f('voikkoSetBooleanOption', c_int, P, c_int, c_int); f('voikkoSetIntegerOption', c_int, P, c_int, c_int)
        f('voikkoSpellUcs4', c_int, P, P); f('voikkoSuggestUcs4', POINTER(P), P, P); f('voikko_free_suggest_ucs4', None, P)
        f('voikkoHyphenateUcs4', P, P, P); f('voikkoInsertHyphensCstr', P, P, c_char_p, c_char_p, c_int); f('voikkoFreeCstr', None, P)
        f('voikkoNextTokenUcs4', c_int, P, P, c_size_t, POINTER(c_size_t)); f('voikkoNextSentenceStartUcs4', c_int, P, P, c_size_t, POINTER(c_size_t))
        f('voikkoNextGrammarErrorUcs4', P, P, P, c_size_t, c_size_t, c_int); f('voikkoFreeGrammarError', None, P)
        f('voikkoGetGrammarErrorCode', c_int, P); f('voikkoGetGrammarErrorStartPos', c_size_t, P); f('voikkoGetGrammarErrorLength', c_size_t, P)
        f('voikkoGetGrammarErrorSuggestions', POINTER(P), P); f('voikkoGetGrammarErrorShortDescription', P, P, c_char_p); f('voikkoFreeErrorMessageCstr', None, P)
        f('voikkoAnalyzeWordUcs4', POINTER(P), P, P); f('voikko_free_mor_analysis', None, P); f('voikko_mor_analysis_keys', POINTER(P), P); f('voikko_mor_analysis_value_ucs4', P, P, c_char_p)
        f('voikkoGetAttributeValues', POINTER(P), P, c_char_p); f('voikkoFreeCstrArray', None, P)
        f('voikko_list_dicts', POINTER(P), c_char_p); f('voikko_free_dicts', None, P)
        for n in ('language', 'script', 'variant', 'description'): f('voikko_dict_' + n, c_char_p, P)
        for n in ('Spelling', 'Hyphenation', 'GrammarChecking'): f('voikkoListSupported%sLanguages' % n, POINTER(P), c_char_p)
        f('voikkoGetVersion', c_char_p)
    @staticmethod
    def wide(s):
        b = (c_wchar * (len(s) + 1))()
        for i, c in enumerate(s): b[i] = c
        return b
    @staticmethod
    def list(a):
        r = []
        while a[len(r)]: r.append(a[len(r)])
        return r
    def open(self, lang, path):
        e = c_void_p()
        h = self.voikkoInit(byref(e), lang, path)
        return (h, None) if not e.value else (None, string_at(e.value).decode('utf-8'))
    def close(self, h): self.voikkoTerminate(h)
    def spell(self, h, w): return self.voikkoSpellUcs4(h, self.wide(w))
    def suggest(self, h, w):
        a = self.voikkoSuggestUcs4(h, self.wide(w))
        if not a: return []
        r = [wstring_at(p) for p in self.list(a)]
        self.voikko_free_suggest_ucs4(a)
        return r
    def pattern(self, h, w):
        p = self.voikkoHyphenateUcs4(h, self.wide(w))
        if not p: return ' ' * len(w)
        r = string_at(p).decode('ascii'); self.voikkoFreeCstr(p)
        return r
    def insert(self, h, w, sep, ctx):
        p = self.voikkoInsertHyphensCstr(h, w.encode('utf-8'), sep.encode('utf-8'), ctx)
        if not p: return None
        r = string_at(p).decode('utf-8'); self.voikkoFreeCstr(p)
        return r
    def tokens(self, h, t):
        r, pos, n = [], 0, c_size_t()
        while pos < len(t):
            k = self.voikkoNextTokenUcs4(h, self.wide(t[pos:]), len(t) - pos, byref(n))
            if k == 0: break
            r.append((t[pos:pos + n.value], k)); pos += n.value
        return r
    def sentences(self, h, t):
        r, pos, n = [], 0, c_size_t()
        while pos < len(t):
            k = self.voikkoNextSentenceStartUcs4(h, self.wide(t[pos:]), len(t) - pos, byref(n))
            r.append((t[pos:pos + n.value], k))
            if k == 0: break
            pos += n.value
        return r
    def paragraph(self, h, t, lang):
        r, b = [], self.wide(t)
        while True:
            e = self.voikkoNextGrammarErrorUcs4(h, b, len(t), 0, len(r))
            if not e: return r
            s = self.voikkoGetGrammarErrorSuggestions(e)
            d = self.voikkoGetGrammarErrorShortDescription(e, lang)
            r.append((self.voikkoGetGrammarErrorCode(e), self.voikkoGetGrammarErrorStartPos(e), self.voikkoGetGrammarErrorLength(e), string_at(d).decode('utf-8'), [string_at(x).decode('utf-8') for x in self.list(s)] if s else []))
            self.voikkoFreeErrorMessageCstr(d); self.voikkoFreeGrammarError(e)
    def analyze(self, h, w):
        a = self.voikkoAnalyzeWordUcs4(h, self.wide(w))
        if not a: return []
        r = []
        for p in self.list(a):
            d = {}
            for k in self.list(self.voikko_mor_analysis_keys(p)):
                k = string_at(k); d[k.decode('ascii')] = wstring_at(self.voikko_mor_analysis_value_ucs4(p, k))
            r.append(d)
        self.voikko_free_mor_analysis(a)
        return r
    def values(self, h, name):
        a = self.voikkoGetAttributeValues(h, name)
        if not a: return None
        r = [string_at(p).decode('utf-8') for p in self.list(a)]
        self.voikkoFreeCstrArray(a)
        return r
    def dicts(self, path):
        a = self.voikko_list_dicts(path)
        r = [tuple(getattr(self, 'voikko_dict_' + n)(p).decode('utf-8') for n in ('language', 'script', 'variant', 'description')) for p in self.list(a)]
        self.voikko_free_dicts(a)
        return r
    def languages(self, what, path):
        a = getattr(self, 'voikkoListSupported%sLanguages' % what)(path)
        r = [string_at(p).decode('utf-8') for p in self.list(a)]
        self.voikkoFreeCstrArray(a)
        return r
