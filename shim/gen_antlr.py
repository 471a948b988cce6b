#!/usr/bin/env python3
"""Stand-in for the ANTLR tool: reads a lexer and a parser grammar and writes the C++ classes
(XLexer, XParser, XParserVisitor, XParserBaseVisitor) on top of include/antlr4-runtime.h.

usage: gen_antlr.py Lexer.g4 Parser.g4 OUT_DIR
"""
import os
import re
import sys

TOK = re.compile(r"""(?P<ws>\s+|//[^\n]*|/\*.*?\*/)|(?P<str>'(?:\\.|[^'\\])*')|(?P<set>\[(?:\\.|[^\]\\])*\])
|(?P<id>[A-Za-z_]\w*)|(?P<op>->|\.\.|\+=|[:;|()*+?~.=<>,#{}@])|(?P<num>\d+)""", re.S | re.X)


def tokenize(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SystemExit(f'gen_antlr: cannot tokenize grammar at: {text[i:i+40]!r}')
        i = m.end()
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group()))
    return out


def unescape(s):
    out, i = [], 0
    esc = {'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'f': '\f'}
    while i < len(s):
        c = s[i]
        if c == '\\':
            i += 1
            c = s[i]
            if c == 'u':
                if s[i + 1] == '{':
                    j = s.index('}', i)
                    out.append(int(s[i + 2:j], 16))
                    i = j + 1
                    continue
                out.append(int(s[i + 1:i + 5], 16))
                i += 5
                continue
            out.append(ord(esc.get(c, c)))
        else:
            out.append(ord(c))
        i += 1
    return out


def charset(s):
    """[...] -> list of ranges"""
    out, i = [], 0
    esc = {'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'f': '\f'}
    items = []
    while i < len(s):
        if s[i] == '\\':
            i += 1
            if s[i] == 'u':
                items.append(('c', int(s[i + 1:i + 5], 16)))
                i += 5
                continue
            items.append(('c', ord(esc.get(s[i], s[i]))))
            i += 1
        elif s[i] == '-' and items and i + 1 < len(s):
            items.append(('-', None))
            i += 1
        else:
            items.append(('c', ord(s[i])))
            i += 1
    k = 0
    while k < len(items):
        if k + 2 < len(items) and items[k + 1][0] == '-':
            out.append((items[k][1], items[k + 2][1]))
            k += 3
        else:
            out.append((items[k][1] if items[k][0] == 'c' else ord('-'),) * 2)
            k += 1
    return out


class P:
    def __init__(self, text):
        self.t = tokenize(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1][1]

    def expect(self, s):
        if self.peek() != s:
            raise SystemExit(f'gen_antlr: expected {s!r}, found {self.peek()!r} near {[x[1] for x in self.t[max(0,self.i-5):self.i+5]]}')
        self.i += 1


# ---- elements: ('tok', name) ('lit', text) ('rule', name) ('set', ranges, neg) ('any',) ('block', alts)
#      ('opt'|'star'|'plus', alts, greedy) ; alt = dict(els=[...], label=None, assoc='left', commands=[...])

def parse_alts(p, lexer):
    alts = [parse_alt(p, lexer)]
    while p.peek() == '|':
        p.next()
        alts.append(parse_alt(p, lexer))
    return alts


def parse_alt(p, lexer):
    alt = dict(els=[], label=None, assoc='left', commands=[])
    while True:
        t = p.peek()
        if t in (None, '|', ')', ';'):
            break
        if t == '<':
            p.next()
            k = p.next()
            p.expect('=')
            v = p.next()
            p.expect('>')
            if k == 'assoc':
                alt['assoc'] = v
            continue
        if t == '#':
            p.next()
            alt['label'] = p.next()
            continue
        if t == '->':
            p.next()
            while True:
                c = p.next()
                arg = None
                if p.peek() == '(':
                    p.next()
                    arg = p.next()
                    p.expect(')')
                alt['commands'].append((c, arg))
                if p.peek() != ',':
                    break
                p.next()
            continue
        alt['els'].append(parse_el(p, lexer))
    return alt


def parse_el(p, lexer):
    neg = False
    if p.kind() == 'id' and p.peek(1) in ('=', '+='):   # element labels carry no meaning here
        p.next()
        p.next()
    if p.peek() == '~':
        p.next()
        neg = True
    k, t = p.kind(), p.next()
    if k == 'str':
        chars = unescape(t[1:-1])
        if p.peek() == '..':
            p.next()
            hi = unescape(p.next()[1:-1])
            e = ('set', [(chars[0], hi[0])], neg)
        elif neg:
            e = ('set', [(chars[0], chars[0])], True)
        else:
            e = ('lit', chars)
    elif k == 'set':
        e = ('set', charset(t[1:-1]), neg)
    elif t == '.':
        e = ('any',)
    elif t == '(':
        alts = parse_alts(p, lexer)
        p.expect(')')
        if neg:
            rs = []
            for a in alts:
                (x,) = a['els']
                rs += x[1] if x[0] == 'set' else [(x[1][0],) * 2] if x[0] == 'lit' else [x]
            e = ('set', rs, True)
        else:
            e = ('block', alts)
    elif k == 'id':
        e = ('tok', t) if t[0].isupper() else ('rule', t)
        if neg:
            e = ('tokset', [t], True)
    else:
        raise SystemExit(f'gen_antlr: unexpected {t!r}')
    if p.peek() in ('?', '*', '+'):
        op = p.next()
        greedy = True
        if p.peek() == '?':
            p.next()
            greedy = False
        alts = e[1] if e[0] == 'block' else [dict(els=[e], label=None, assoc='left', commands=[])]
        e = ({'?': 'opt', '*': 'star', '+': 'plus'}[op], alts, greedy)
    return e


def parse_grammar(path):
    p = P(open(path).read())
    lexer = False
    name = None
    rules, mode, modes = [], 'DEFAULT_MODE', ['DEFAULT_MODE']
    options = {}
    while p.peek() is not None:
        t = p.peek()
        if t in ('lexer', 'parser') and p.peek(1) == 'grammar':
            lexer = t == 'lexer'
            p.next(); p.next()
            name = p.next()
            p.expect(';')
        elif t == 'grammar':
            p.next()
            name = p.next()
            p.expect(';')
        elif t == 'options':
            p.next()
            p.expect('{')
            while p.peek() != '}':
                k = p.next()
                p.expect('=')
                options[k] = p.next()
                p.expect(';')
            p.expect('}')
        elif t in ('tokens', 'channels'):
            raise SystemExit('gen_antlr: tokens{}/channels{} not supported')
        elif t == 'mode':
            p.next()
            mode = p.next()
            p.expect(';')
            modes.append(mode)
        else:
            frag = False
            if t == 'fragment':
                p.next()
                frag = True
            rn = p.next()
            p.expect(':')
            alts = parse_alts(p, lexer)
            p.expect(';')
            rules.append(dict(name=rn, alts=alts, fragment=frag, mode=mode))
    return dict(name=name, lexer=lexer, rules=rules, modes=modes, options=options)


def cstr(s):
    return '"' + ''.join(c if 32 <= ord(c) < 127 and c not in '"\\' else f'\\{ord(c):03o}' for c in s) + '"'


def gen_lexer(g, out, ns):
    name = g['name']
    tokens = [r for r in g['rules'] if not r['fragment']]
    ttype = {}
    for r in tokens:
        ttype.setdefault(r['name'], len(ttype) + 1)
    literal = {}
    for r in tokens:
        if len(r['alts']) == 1 and len(r['alts'][0]['els']) == 1 and r['alts'][0]['els'][0][0] == 'lit':
            literal[r['name']] = ''.join(map(chr, r['alts'][0]['els'][0][1]))
    byname = {r['name']: r for r in g['rules']}
    modes = g['modes']

    def els(es, depth=0):
        return '{' + ', '.join(el(e, depth) for e in es) + '}'

    def alts(a, depth=0):
        return '{' + ', '.join(els(x['els'], depth) for x in a) + '}'

    def el(e, depth):
        if depth > 40:
            raise SystemExit('gen_antlr: recursive lexer rules are not supported')
        k = e[0]
        if k == 'lit':
            return 'L::lit({' + ', '.join(map(str, e[1])) + '})'
        if k == 'set':
            rs = []
            for r in e[1]:
                rs.append(r)
            return 'L::set({' + ', '.join('{%d, %d}' % r for r in rs) + '}, %s)' % ('true' if e[2] else 'false')
        if k == 'any':
            return 'L::set({}, true)'
        if k in ('tok', 'rule'):
            if e[1] == 'EOF':
                return 'L::eof()'
            return f'L::block({alts(byname[e[1]]["alts"], depth + 1)})'
        if k == 'block':
            return f'L::block({alts(e[1], depth)})'
        return f'L::{k}({alts(e[1], depth)}, {"true" if e[2] else "false"})'

    h = f'''// generated
#pragma once
#include "antlr4-runtime.h"
class {name} : public antlr4::Lexer {{
public:
    enum {{ {", ".join(f"{n} = {t}" for n, t in ttype.items())} }};
    enum {{ {", ".join(f"{m}_ = {i}" for i, m in enumerate(modes))} }};
    explicit {name}(antlr4::CharStream* input);
    std::string getGrammarFileName() const override {{ return "{name}.g4"; }}
    static const antlr4::shim::Vocabulary& vocabulary();
}};
'''
    c = [f'// generated\n#include "{name}.h"\nnamespace {{\nusing L = antlr4::shim::L;\nantlr4::shim::LexerGrammar make() {{\n    antlr4::shim::LexerGrammar g;\n    g.modes = {len(modes)};']
    for r in tokens:
        for ai, a in enumerate(r['alts']):
            cmds = []
            for cm, arg in a['commands']:
                if cm == 'skip': cmds.append('{antlr4::shim::SKIP, 0}')
                elif cm == 'pushMode': cmds.append('{antlr4::shim::PUSH_MODE, %d}' % modes.index(arg))
                elif cm == 'mode': cmds.append('{antlr4::shim::MODE, %d}' % modes.index(arg))
                elif cm == 'popMode': cmds.append('{antlr4::shim::POP_MODE, 0}')
                elif cm == 'type': cmds.append('{antlr4::shim::TYPE, %d}' % ttype[arg])
                elif cm == 'channel': cmds.append('{antlr4::shim::CHANNEL, %d}' % (0 if arg == 'DEFAULT_TOKEN_CHANNEL' else 1))
                elif cm == 'more': cmds.append('{antlr4::shim::MORE, 0}')
                else: raise SystemExit('gen_antlr: lexer command ' + cm)
            c.append(f'    g.add({ttype[r["name"]]}, {modes.index(r["mode"])}, {els(a["els"])}, {{{", ".join(cmds)}}}, {"true" if ai else "false"});')
    c.append('    g.finish();\n    return g;\n}\n}  // namespace')
    c.append(f'const antlr4::shim::Vocabulary& {name}::vocabulary() {{\n    static const antlr4::shim::Vocabulary v{{ {{')
    c.append('        {"<INVALID>", false},')
    for n in ttype:
        c.append('        {' + (cstr("'" + literal[n].replace('\\', '\\\\').replace('\n', '\\n').replace('\r', '\\r').replace('\t', '\\t').replace("'", "\\'") + "'") if n in literal else cstr(n)) + ', true},')
    c.append('    } };\n    return v;\n}')
    c.append(f'static const antlr4::shim::LexerGrammar& grammar() {{\n    static const antlr4::shim::LexerGrammar g = make();\n    return g;\n}}')
    c.append(f'{name}::{name}(antlr4::CharStream* input) : antlr4::Lexer(input, grammar()) {{}}')
    open(os.path.join(out, name + '.h'), 'w').write(h)
    open(os.path.join(out, name + '.cpp'), 'w').write('\n'.join(c) + '\n')
    return ttype, literal


def up(s):
    return s[:1].upper() + s[1:]


def gen_parser(g, lexname, ttype, literal, out, ns):
    name = g['name']
    rules = g['rules']
    rix = {r['name']: i for i, r in enumerate(rules)}
    bylit = {v: k for k, v in literal.items()}

    def tok(e):
        if e[0] == 'lit':
            n = bylit[''.join(map(chr, e[1]))]
        else:
            n = e[1]
        return n

    def is_leftrec(r):
        return any(a['els'] and a['els'][0] == ('rule', r['name']) for a in r['alts'])

    # count references: returns dict name->(max count, is token)
    def freq(es):
        f = {}

        def add(n, k, c):
            f[(n, k)] = f.get((n, k), 0) + c
        for e in es:
            if e[0] in ('tok', 'lit'): add(tok(e), 't', 1)
            elif e[0] == 'rule': add(e[1], 'r', 1)
            elif e[0] in ('block', 'opt', 'star', 'plus'):
                m = {}
                for a in e[1]:
                    for k, v in freq(a['els']).items():
                        m[k] = max(m.get(k, 0), v)
                for (n, k), v in m.items():
                    add(n, k, 2 if e[0] in ('star', 'plus') else v)
        return f

    def merge(fs):
        m = {}
        for f in fs:
            for k, v in f.items():
                m[k] = max(m.get(k, 0), v)
        return m

    classes = []   # (class, base, rule index, method, freq)
    facts = []
    for r in rules:
        base = up(r['name']) + 'Context'
        labels = []
        for a in r['alts']:
            if a['label'] and a['label'] not in labels:
                labels.append(a['label'])
        if labels:
            classes.append((base, 'antlr4::ParserRuleContext', rix[r['name']], None, {}))
            for l in labels:
                f = merge([freq(a['els']) for a in r['alts'] if a['label'] == l])
                classes.append((up(l) + 'Context', base, rix[r['name']], up(l), f))
        else:
            classes.append((base, 'antlr4::ParserRuleContext', rix[r['name']], up(r['name']), merge([freq(a['els']) for a in r['alts']])))
    cid = {c[0]: i for i, c in enumerate(classes)}

    h = [f'// generated\n#pragma once\n#include "antlr4-runtime.h"\nclass {name} : public antlr4::Parser {{\npublic:']
    h.append('    enum { ' + ', '.join(f'{n} = {t}' for n, t in ttype.items()) + ' };')
    h.append('    enum { ' + ', '.join(f'Rule{up(r["name"])} = {i}' for i, r in enumerate(rules)) + ' };')
    for c in classes:
        h.append(f'    class {c[0]};')
    h.append(f'    explicit {name}(antlr4::TokenStream* input);\n    std::string getGrammarFileName() const override {{ return "{name}.g4"; }}')
    for c in classes:
        h.append(f'    class {c[0]} : public {c[1]} {{\n    public:\n        using {c[1]}::{c[1].split("::")[-1]};\n        size_t getRuleIndex() const override {{ return {c[2]}; }}')
        for (n, k), v in c[4].items():
            if n == 'EOF':
                tn = 'antlr4::Token::EOF'
                k = 't'
            else:
                tn = str(ttype[n]) if k == 't' else None
            if k == 't':
                if v > 1:
                    h.append(f'        std::vector<antlr4::tree::TerminalNode*> {n}() {{ return getTokens({tn}); }}\n        antlr4::tree::TerminalNode* {n}(size_t i) {{ return getToken({tn}, i); }}')
                else:
                    h.append(f'        antlr4::tree::TerminalNode* {n}() {{ return getToken({tn}, 0); }}')
            else:
                ct = up(n) + 'Context'
                if v > 1:
                    h.append(f'        std::vector<{ct}*> {n}();\n        {ct}* {n}(size_t i);')
                else:
                    h.append(f'        {ct}* {n}();')
        if c[3]:
            h.append('        std::any accept(antlr4::tree::ParseTreeVisitor* visitor) override;')
        h.append('    };')
    for r in rules:
        h.append(f'    {up(r["name"])}Context* {r["name"]}();')
    h.append('};')
    open(os.path.join(out, name + '.h'), 'w').write('\n'.join(h) + '\n')

    vis = [c for c in classes if c[3]]
    vh = f'// generated\n#pragma once\n#include "antlr4-runtime.h"\n#include "{name}.h"\nclass {name}Visitor : public antlr4::tree::AbstractParseTreeVisitor {{\npublic:\n'
    vh += ''.join(f'    virtual std::any visit{c[3]}({name}::{c[0]}* context) = 0;\n' for c in vis) + '};\n'
    open(os.path.join(out, name + 'Visitor.h'), 'w').write(vh)
    vb = f'// generated\n#pragma once\n#include "antlr4-runtime.h"\n#include "{name}Visitor.h"\nclass {name}BaseVisitor : public {name}Visitor {{\npublic:\n'
    vb += ''.join(f'    std::any visit{c[3]}({name}::{c[0]}* context) override {{ return visitChildren(context); }}\n' for c in vis) + '};\n'
    open(os.path.join(out, name + 'BaseVisitor.h'), 'w').write(vb)

    def el(e, last_rule=None, prec=None):
        if e[0] in ('tok', 'lit'):
            n = tok(e)
            return 'E::tok(%s)' % ('static_cast<int>(antlr4::Token::EOF)' if n == 'EOF' else ttype[n])
        if e[0] == 'rule':
            return 'E::rule_(%d, %d)' % (rix[e[1]], prec if (prec is not None and e is last_rule) else 0)
        if e[0] == 'block':
            s = [x['els'][0] for x in e[1] if len(x['els']) == 1 and x['els'][0][0] in ('tok', 'lit')]
            if len(s) == len(e[1]):
                return 'E::set({' + ', '.join(str(ttype[tok(x)]) for x in s) + '})'
            return 'E::block(' + alts(e[1]) + ')'
        return f'E::{e[0]}(' + alts(e[1]) + ')'

    def seq(es, **kw):
        return '{' + ', '.join(el(e, **kw) for e in es) + '}'

    def alts(a):
        return '{' + ', '.join(seq(x['els']) for x in a) + '}'

    s = [f'// generated\n#include "{name}.h"\n#include "{name}Visitor.h"\n#include "{lexname}.h"\nnamespace {{\nusing E = antlr4::shim::E;\nantlr4::shim::ParserGrammar make() {{\n    antlr4::shim::ParserGrammar g;\n    g.maxToken = {max(ttype.values())};']
    for r in rules:
        base = cid[up(r['name']) + 'Context']
        n = len(r['alts'])
        s.append(f'    {{\n        auto& r = g.rule("{r["name"]}", {base});')
        if not is_leftrec(r):
            sets = [a['els'][0] for a in r['alts'] if len(a['els']) == 1 and a['els'][0][0] in ('tok', 'lit')]
            if n > 1 and len(sets) == n and not any(a['label'] for a in r['alts']):
                s.append('        r.alt({E::set({' + ', '.join(str(ttype[tok(x)]) for x in sets) + '})}, -1);')
            else:
                for a in r['alts']:
                    s.append(f'        r.alt({seq(a["els"])}, {cid[up(a["label"]) + "Context"] if a["label"] else -1});')
        else:
            s.append('        r.leftRecursive = true;')
            for i, a in enumerate(r['alts']):
                prec = n - i
                lbl = cid[up(a['label']) + 'Context'] if a['label'] else -1
                es = a['els']
                self_ = ('rule', r['name'])
                # every element must be its own object, so that "the rightmost" can be told by identity
                es = [tuple(list(e)) if isinstance(e, tuple) else e for e in es]
                es = [(e[0], e[1]) + tuple(e[2:]) if len(e) > 1 else e for e in es]
                left = es[0] == self_
                rr = [e for e in es if e[0] == 'rule']
                right = len(es) > 1 and es[-1] == self_
                if left and right:
                    p = prec if a['assoc'] == 'right' else prec + 1
                    s.append(f'        r.op({seq(es[1:], last_rule=es[-1], prec=p)}, {lbl}, {prec});')
                elif left:
                    s.append(f'        r.op({seq(es[1:])}, {lbl}, {prec});')
                elif right:
                    s.append(f'        r.alt({seq(es, last_rule=es[-1], prec=prec)}, {lbl});')
                else:
                    s.append(f'        r.alt({seq(es)}, {lbl});')
        s.append('    }')
    s.append('    g.finish();\n    return g;\n}')
    s.append('antlr4::ParserRuleContext* create(int cls, antlr4::ParserRuleContext* parent, int invoking) {\n    switch (cls) {')
    for c in classes:
        s.append(f'        case {cid[c[0]]}: return new {name}::{c[0]}(parent, static_cast<size_t>(invoking));')
    s.append('    }\n    return nullptr;\n}\n}  // namespace')
    s.append('static const antlr4::shim::ParserGrammar& grammar() {\n    static const antlr4::shim::ParserGrammar g = make();\n    return g;\n}')
    s.append(f'{name}::{name}(antlr4::TokenStream* input) : antlr4::Parser(input, grammar(), {lexname}::vocabulary(), &create) {{}}')
    for r in rules:
        s.append(f'{name}::{up(r["name"])}Context* {name}::{r["name"]}() {{ return static_cast<{up(r["name"])}Context*>(run({rix[r["name"]]})); }}')
    for c in classes:
        for (n, k), v in c[4].items():
            if k == 'r':
                ct = up(n) + 'Context'
                if v > 1:
                    s.append(f'std::vector<{name}::{ct}*> {name}::{c[0]}::{n}() {{ return getRuleContexts<{ct}>(); }}\n{name}::{ct}* {name}::{c[0]}::{n}(size_t i) {{ return getRuleContext<{ct}>(i); }}')
                else:
                    s.append(f'{name}::{ct}* {name}::{c[0]}::{n}() {{ return getRuleContext<{ct}>(0); }}')
        if c[3]:
            s.append(f'std::any {name}::{c[0]}::accept(antlr4::tree::ParseTreeVisitor* visitor) {{\n    if (auto v = dynamic_cast<{name}Visitor*>(visitor)) return v->visit{c[3]}(this);\n    return visitor->visitChildren(this);\n}}')
    open(os.path.join(out, name + '.cpp'), 'w').write('\n'.join(s) + '\n')


def main():
    lx, pr, out = sys.argv[1:4]
    ns = ''
    os.makedirs(out, exist_ok=True)
    lg, pg = parse_grammar(lx), parse_grammar(pr)
    ttype, literal = gen_lexer(lg, out, ns)
    gen_parser(pg, lg['name'], ttype, literal, out, ns)


if __name__ == '__main__':
    main()
