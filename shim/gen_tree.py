#!/usr/bin/env python3
"""Stand-in for the tree-gen generator: reads a .tree file and writes the C++ node classes.

usage: gen_tree.py FILE.tree OUT_DIR   (writes OUT_DIR/<header path of the file> and the .cpp beside it)
"""
import os
import re
import sys


def camel(s):
    return ''.join(p[:1].upper() + p[1:] for p in s.split('_'))


class Node:
    def __init__(self, name, parent):
        self.name, self.parent, self.children, self.own = name, parent, [], []
        self.cls = camel(name)

    def fields(self):
        return self.own + (self.parent.fields() if self.parent else [])

    @property
    def leaf(self):
        return not self.children


def parse(text):
    text = '\n'.join(re.sub(r'(^|\s)(#|//).*$', '', l) for l in text.split('\n'))
    toks = re.findall(r'"[^"]*"|[A-Za-z_][\w:.]*(?:::\w+)*|[{};:<>]', text)
    spec = dict(includes=[], src_includes=[], imports=[], ns=[], location=None, init=None, ser=None, des=None)
    nodes = []
    i = 0
    simple = {'source': 0, 'header': 1, 'include': 1, 'src_include': 1, 'import': 1, 'tree_namespace': 1,
              'initialize_function': 1, 'serdes_functions': 2, 'location': 1, 'namespace': 1}

    def body(i, node):
        assert toks[i] == '{', toks[i:i + 5]
        i += 1
        while toks[i] != '}':
            name = toks[i]
            if toks[i + 1] == '{':
                child = Node(name, node)
                nodes.append(child)
                node.children.append(child)
                i = body(i + 1, child)
                continue
            # a field; the tokenizer may have glued the colon to the name
            name = name.rstrip(':')
            i += 1
            if toks[i] == ':':
                i += 1
            external = False
            if toks[i] == 'external':
                external, i = True, i + 1
            kind = toks[i]
            i += 1
            if toks[i] == '<':
                typ = toks[i + 1]
                assert toks[i + 2] == '>'
                i += 3
                node.own.append((name, kind, typ, external))
            else:
                node.own.append((name, 'prim', kind, external))
            assert toks[i] == ';', toks[i - 4:i + 4]
            i += 1
        return i + 1

    while i < len(toks):
        t = toks[i]
        if t in simple and not (i + 1 < len(toks) and toks[i + 1] == '{'):
            args = [a.strip('"') for a in toks[i + 1:i + 1 + simple[t]]]
            i += 1 + simple[t]
            if t == 'header': spec['header'] = args[0]
            elif t == 'include': spec['includes'].append(args[0])
            elif t == 'src_include': spec['src_includes'].append(args[0])
            elif t == 'tree_namespace': spec['tns'] = args[0]
            elif t == 'initialize_function': spec['init'] = args[0]
            elif t == 'serdes_functions': spec['ser'], spec['des'] = args
            elif t == 'location': spec['location'] = args[0]
            elif t == 'namespace': spec['ns'].append(args[0])
            continue
        n = Node(t, None)
        nodes.append(n)
        i = body(i + 1, n)
    spec['nodes'] = nodes
    return spec


def ctype(f, spec):
    name, kind, typ, external = f
    if kind == 'prim':
        return typ
    return f'{kind}<{typ if external else camel(typ)}>'


EDGE = ('Maybe', 'One', 'Any', 'Many')
LINK = ('OptLink', 'Link')


def generate(spec):
    ns = '::'.join(spec['ns'])
    nodes = spec['nodes']
    leaves = [n for n in nodes if n.leaf]
    H, S = [], []
    h, s = H.append, S.append
    h('// generated\n#pragma once\n\n#include <fmt/ostream.h>\n#include <functional>\n#include <iostream>\n#include <memory>\n#include <sstream>\n#include <string>')
    for inc in spec['includes']:
        h(f'#include "{inc}"')
    h(f'\nnamespace {ns} {{\n')
    for t in ('Maybe', 'One', 'Any', 'Many', 'OptLink', 'Link'):
        h(f'template <class T>\nusing {t} = {spec["tns"]}::{t}<T>;')
    h('\nclass Node;')
    for n in nodes:
        h(f'class {n.cls};')
    h('\nclass VisitorBase;\ntemplate <typename T = void>\nclass Visitor;\nclass RecursiveVisitor;\nclass Dumper;\nclass JsonDumper;\n')
    h('enum class NodeType {\n    ' + ',\n    '.join(n.cls for n in leaves) + '\n};\n')
    h('std::ostream& operator<<(std::ostream& os, NodeType t);\n')
    h(f'class Node : public {spec["tns"]}::Base {{\npublic:')
    h('    Node() = default;\n    Node(const Node&) = default;\n    Node& operator=(const Node&) = default;\n    virtual ~Node() = default;')
    h('    virtual NodeType type() const = 0;\n    virtual One<Node> copy() const = 0;\n    virtual One<Node> clone() const = 0;')
    h('    virtual bool equals(const Node& rhs) const = 0;\n    virtual bool values_equal(const Node& rhs) const { return equals(rhs); }')
    h('    bool operator==(const Node& rhs) const { return equals(rhs); }\n    bool operator!=(const Node& rhs) const { return !equals(rhs); }')
    h('protected:\n    friend class VisitorBase;\n    virtual void visit_internal(VisitorBase& visitor, void* retval) = 0;\npublic:')
    h('    template <typename T>\n    T visit(Visitor<T>& visitor);')
    h('    void dump(std::ostream& out = std::cout, int indent = 0);\n    void dump_json(std::ostream& out = std::cout);\n    void dump_raw_pointers(std::ostream& out = std::cout, int indent = 0);')
    h('    virtual void serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const = 0;')
    h('    static std::shared_ptr<Node> deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids);')
    for n in nodes:
        h(f'    virtual {n.cls}* as_{n.name}() {{ return nullptr; }}\n    virtual const {n.cls}* as_{n.name}() const {{ return nullptr; }}')
    h('};\n')
    for n in nodes:
        base = n.parent.cls if n.parent else 'Node'
        h(f'class {n.cls} : public {base} {{\npublic:')
        for f in n.own:
            h(f'    {ctype(f, spec)} {f[0]};')
        fields = n.fields()
        if fields:
            args = ', '.join(f'const {ctype(f, spec)}& {f[0]}_ = ' +
                             (f'{spec["init"]}<{ctype(f, spec)}>()' if f[1] == 'prim' and spec['init'] else f'{ctype(f, spec)}()')
                             for f in fields)
            explicit = ''
            h(f'    {explicit}{n.cls}({args});')
        else:
            h(f'    {n.cls}() = default;')
        h(f'    {n.cls}(const {n.cls}&) = default;\n    {n.cls}& operator=(const {n.cls}&) = default;\n    virtual ~{n.cls}() = default;')
        h(f'    {n.cls}* as_{n.name}() override {{ return this; }}\n    const {n.cls}* as_{n.name}() const override {{ return this; }}')
        if n.leaf:
            h('    NodeType type() const override;\n    One<Node> copy() const override;\n    One<Node> clone() const override;\n    bool equals(const Node& rhs) const override;')
            h('    void find_reachable(::tree::base::PointerMap& map) const override;\n    void check_complete(const ::tree::base::PointerMap& map) const override;')
            h('    void serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const override;')
            h(f'    static std::shared_ptr<{n.cls}> deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids);')
        else:
            h(f'    static std::shared_ptr<{n.cls}> deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids);')
        h('protected:\n    void visit_internal(VisitorBase& visitor, void* retval) override;\n};\n')
    # visitors
    h('class VisitorBase {\npublic:\n    virtual ~VisitorBase() = default;\nprotected:\n    friend class Node;')
    for n in nodes:
        h(f'    friend class {n.cls};')
    h('    virtual void raw_visit_node(Node& node, void* retval) = 0;')
    for n in nodes:
        h(f'    virtual void raw_visit_{n.name}({n.cls}& node, void* retval) = 0;')
    h('};\n')
    for T in ('T', 'void'):
        h(('template <typename T>\nclass Visitor' if T == 'T' else 'template <>\nclass Visitor<void>') + ' : public VisitorBase {\nprotected:\n    friend class Node;')
        for n in [None] + nodes:
            nm, cl = (n.name, n.cls) if n else ('node', 'Node')
            if T == 'T':
                h(f'    void raw_visit_{nm}({cl}& node, void* retval) override {{\n        if (retval) *static_cast<T*>(retval) = this->visit_{nm}(node); else this->visit_{nm}(node);\n    }}')
            else:
                h(f'    void raw_visit_{nm}({cl}& node, void*) override {{ this->visit_{nm}(node); }}')
        h('public:')
        h(f'    virtual {T} visit_node(Node& node) = 0;')
        for n in nodes:
            p = n.parent.name if n.parent else 'node'
            h(f'    virtual {T} visit_{n.name}({n.cls}& node) {{ return visit_{p}(node); }}')
        h('};\n')
    h('template <typename T>\nT Node::visit(Visitor<T>& visitor) {\n    T retval;\n    this->visit_internal(visitor, &retval);\n    return retval;\n}\n'
      'template <>\ninline void Node::visit(Visitor<void>& visitor) {\n    this->visit_internal(visitor, nullptr);\n}\n')
    h('class RecursiveVisitor : public Visitor<void> {\npublic:\n    void visit_node(Node& node) override;')
    for n in nodes:
        h(f'    void visit_{n.name}({n.cls}& node) override;')
    h('};\n')
    h('std::ostream& operator<<(std::ostream& os, const Node& object);\n')
    h(f'}}  // namespace {ns}')
    h('template <typename T>\nstruct fmt::formatter<T, std::enable_if_t<std::is_base_of_v<%s::Node, T>, char>> : fmt::ostream_formatter {};' % ns)

    s(f'// generated\n#include "{spec["header"]}"\n#include <typeinfo>')
    for inc in spec['src_includes']:
        s(f'#include "{inc}"')
    s(f'\nnamespace {ns} {{\n')
    s('''namespace {
[[maybe_unused]] void ind(std::ostream& out, int indent) { for (int i = 0; i < indent; ++i) out << "  "; }
[[maybe_unused]] std::string trim(std::string t) {
    auto pos = t.find_last_not_of(" \\n\\r\\t");
    if (pos != std::string::npos) t.erase(pos + 1);
    return t;
}
[[maybe_unused]] void dump_prim(std::ostream& out, int indent, const char* name, const char* type, std::string t) {
    t = trim(t);
    ind(out, indent);
    out << name << ": ";
    if (t.find('\\n') == std::string::npos) {
        out << t << std::endl;
        return;
    }
    out << type << "<<" << std::endl;
    ind(out, indent + 1);
    for (char c : t) {
        out << c;
        if (c == '\\n') ind(out, indent + 1);
    }
    out << std::endl;
    ind(out, indent);
    out << ">>" << std::endl;
}
[[maybe_unused]] void json_prim(std::ostream& out, const std::string& t) {
    out << '"';
    for (char c : trim(t)) {
        if (c == '"' || c == '\\\\') out << '\\\\' << c;
        else if (c == '\\n') out << "\\\\n";
        else out << c;
    }
    out << '"';
}
template <class E>
std::string to_text(const E& e) {
    std::ostringstream ss;
    ss << e;
    return ss.str();
}
}  // namespace
''')
    s('std::ostream& operator<<(std::ostream& os, NodeType t) {\n    switch (t) {')
    for n in leaves:
        s(f'        case NodeType::{n.cls}: return os << "{n.cls}";')
    s('    }\n    return os;\n}\n')
    for n in nodes:
        fields = n.fields()
        own = {f[0] for f in n.own}
        if fields:
            args = ', '.join(f'const {ctype(f, spec)}& {f[0]}_' for f in fields)
            inits = []
            if n.parent and n.parent.fields():
                inits.append(f'{n.parent.cls}(' + ', '.join(f[0] + '_' for f in n.parent.fields()) + ')')
            inits += [f'{f[0]}({f[0]}_)' for f in n.own]
            s(f'{n.cls}::{n.cls}({args})\n: {", ".join(inits)} {{}}')
        s(f'void {n.cls}::visit_internal(VisitorBase& visitor, void* retval) {{ visitor.raw_visit_{n.name}(*this, retval); }}')
        if not n.leaf:
            s(f'std::shared_ptr<{n.cls}> {n.cls}::deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids) {{\n'
              f'    auto r = std::dynamic_pointer_cast<{n.cls}>(Node::deserialize(map, ids));\n'
              f'    if (!r) throw std::runtime_error("Schema validation failed: unexpected node type");\n    return r;\n}}')
            continue
        s(f'NodeType {n.cls}::type() const {{ return NodeType::{n.cls}; }}')
        s(f'One<Node> {n.cls}::copy() const {{ return One<Node>(std::make_shared<{n.cls}>(*this)); }}')
        cl = ''.join(f'    node->{f[0]} = this->{f[0]}.clone();\n' for f in fields if f[1] in EDGE + LINK)
        s(f'One<Node> {n.cls}::clone() const {{\n    auto node = std::make_shared<{n.cls}>(*this);\n{cl}    return One<Node>(node);\n}}')
        eq = ''.join(
            (f'    if (!this->{f[0]}.equals(r->{f[0]})) return false;\n' if f[1] in EDGE + LINK else f'    if (!(this->{f[0]} == r->{f[0]})) return false;\n')
            for f in fields)
        s(f'bool {n.cls}::equals(const Node& rhs) const {{\n    auto r = rhs.as_{n.name}();\n    if (!r) return false;\n{eq}    return true;\n}}')
        s(f'void {n.cls}::find_reachable(::tree::base::PointerMap& map) const {{\n    (void)map;\n' +
          ''.join(f'    {f[0]}.find_reachable(map);\n' for f in fields if f[1] in EDGE) + '}')
        s(f'void {n.cls}::check_complete(const ::tree::base::PointerMap& map) const {{\n    (void)map;\n' +
          ''.join(f'    {f[0]}.check_complete(map);\n' for f in fields if f[1] in EDGE + LINK) + '}')
        s(f'void {n.cls}::serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const {{\n    (void)ids;\n'
          f'    map.append_string("@t", "{n.cls}");')
        for f in fields:
            s(f'    {{\n        auto sub = map.append_map("{f[0]}");')
            if f[1] == 'prim':
                s(f'        {spec["ser"]}<{ctype(f, spec)}>({f[0]}, sub);')
            else:
                s(f'        {f[0]}.serialize(sub, ids);')
            s('        sub.close();\n    }')
        s('}')
        s(f'std::shared_ptr<{n.cls}> {n.cls}::deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids) {{\n    (void)ids;\n'
          f'    if (map.at("@t").as_string() != "{n.cls}") throw std::runtime_error("Schema validation failed: unexpected node type");\n'
          f'    auto node = std::make_shared<{n.cls}>();')
        for f in fields:
            if f[1] == 'prim':
                s(f'    node->{f[0]} = {spec["des"]}<{ctype(f, spec)}>(map.at("{f[0]}").as_map());')
            else:
                s(f'    node->{f[0]}.deserialize(map.at("{f[0]}").as_map(), ids);')
        s('    return node;\n}')
    s('std::shared_ptr<Node> Node::deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids) {\n    auto t = map.at("@t").as_string();')
    for n in leaves:
        s(f'    if (t == "{n.cls}") return {n.cls}::deserialize(map, ids);')
    s('    throw std::runtime_error("Schema validation failed: unexpected node type " + t);\n}\n')
    # recursive visitor
    s('void RecursiveVisitor::visit_node(Node&) {}')
    for n in nodes:
        p = n.parent.name if n.parent else 'node'
        b = ''
        if n.leaf:
            for f in n.fields():
                if f[1] in ('Maybe', 'One') and not f[3]:
                    b += f'    if (!node.{f[0]}.empty()) node.{f[0]}->visit(*this);\n'
                elif f[1] in ('Any', 'Many') and not f[3]:
                    b += f'    for (auto& x : node.{f[0]}) if (!x.empty()) x->visit(*this);\n'
            s(f'void RecursiveVisitor::visit_{n.name}({n.cls}& node) {{\n    (void)node;\n{b}}}')
        else:
            s(f'void RecursiveVisitor::visit_{n.name}({n.cls}& node) {{ visit_{p}(node); }}')
    # dumper
    s('''class Dumper : public Visitor<void> {
public:
    std::ostream& out;
    int indent;
    bool pointers;
    Dumper(std::ostream& out, int indent, bool pointers = false) : out(out), indent(indent), pointers(pointers) {}
    void visit_node(Node&) override { out << "!Node()" << std::endl; }''')

    def loc_txt(n):
        if not spec['location']:
            return ''
        return (f'        if (auto loc = node.get_annotation_ptr<{spec["location"]}>()) out << " # " << *loc;\n')
    for n in leaves:
        fields = n.fields()
        s(f'    void visit_{n.name}({n.cls}& node) override {{\n        ind(out, indent);\n        out << "{n.cls}(";\n        if (pointers) out << "@" << static_cast<const void*>(&node);')
        if not fields:
            s(loc_txt(n).replace('" # "', '" # "') + '        out << ")" << std::endl;\n    }' if not spec['location'] else
              f'        out << ")";\n{loc_txt(n)}        out << std::endl;\n    }}')
            continue
        s(loc_txt(n) + '        out << std::endl;\n        indent++;')
        for f in fields:
            name, kind, typ, ext = f
            if kind == 'prim':
                s(f'        dump_prim(out, indent, "{name}", "{typ}", to_text(node.{name}));')
            elif kind in ('Maybe', 'One'):
                empty = '-' if kind == 'Maybe' else '!MISSING'
                dump = f'node.{name}->dump(out, indent)' if ext else f'node.{name}->visit(*this)'
                s(f'        ind(out, indent);\n        out << "{name}: ";\n        if (node.{name}.empty()) {{\n            out << "{empty}" << std::endl;\n        }} else {{\n'
                  f'            out << "<" << std::endl;\n            indent++;\n            {dump};\n            indent--;\n            ind(out, indent);\n            out << ">" << std::endl;\n        }}')
            elif kind in ('Any', 'Many'):
                empty = '[]' if kind == 'Any' else '!MISSING'
                dump = 'sptr->dump(out, indent)' if ext else 'sptr->visit(*this)'
                s(f'        ind(out, indent);\n        out << "{name}: ";\n        if (node.{name}.empty()) {{\n            out << "{empty}" << std::endl;\n        }} else {{\n'
                  f'            out << "[" << std::endl;\n            indent++;\n            for (auto& sptr : node.{name}) {{\n                if (!sptr.empty()) {{\n                    {dump};\n                }} else {{\n                    ind(out, indent);\n                    out << "!NULL" << std::endl;\n                }}\n            }}\n            indent--;\n            ind(out, indent);\n            out << "]" << std::endl;\n        }}')
            else:
                empty = '-' if kind == 'OptLink' else '!MISSING'
                dump = f'node.{name}->dump(out, indent)' if ext else f'node.{name}->visit(*this)'
                s(f'        ind(out, indent);\n        out << "{name} --> ";\n        if (node.{name}.empty()) {{\n            out << "{empty}" << std::endl;\n        }} else {{\n'
                  f'            out << "<" << std::endl;\n            indent++;\n            {dump};\n            indent--;\n            ind(out, indent);\n            out << ">" << std::endl;\n        }}')
        s('        indent--;\n        ind(out, indent);\n        out << ")" << std::endl;\n    }')
    s('};\n')
    s('''class JsonDumper : public Visitor<void> {
public:
    std::ostream& out;
    explicit JsonDumper(std::ostream& out) : out(out) {}
    void visit_node(Node&) override { out << "!Node"; }''')
    for n in leaves:
        fields = n.fields()
        s(f'    void visit_{n.name}({n.cls}& node) override {{\n        out << "{{\\"{n.cls}\\":{{";')
        first = True
        for f in fields:
            name, kind, typ, ext = f
            s(f'        out << "{"" if first else ","}\\"{name}\\":";')
            first = False
            if kind == 'prim':
                s(f'        json_prim(out, to_text(node.{name}));')
            elif kind in ('Any', 'Many'):
                dump = 'x->dump_json(out)' if ext else 'x->visit(*this)'
                s(f'        out << "[";\n        {{\n            bool first = true;\n            for (auto& x : node.{name}) {{\n                if (!first) out << ",";\n                first = false;\n                if (x.empty()) out << "\\"!NULL\\""; else {dump};\n            }}\n        }}\n        out << "]";')
            else:
                empty = '-' if kind in ('Maybe', 'OptLink') else '!MISSING'
                dump = f'node.{name}->dump_json(out)' if ext else f'node.{name}->visit(*this)'
                s(f'        if (node.{name}.empty()) out << "\\"{empty}\\""; else {dump};')
        if spec['location']:
            s(f'        if (auto loc = node.get_annotation_ptr<{spec["location"]}>()) {{\n            out << "{"" if first else ","}\\"source_location\\":";\n            json_prim(out, to_text(*loc));\n        }}')
        s('        out << "}}";\n        (void)node;\n    }')
    s('};\n')
    s('''void Node::dump(std::ostream& out, int indent) {
    Dumper dumper{ out, indent };
    visit(dumper);
}
void Node::dump_json(std::ostream& out) {
    JsonDumper dumper{ out };
    visit(dumper);
}
void Node::dump_raw_pointers(std::ostream& out, int indent) {
    Dumper dumper{ out, indent, true };
    visit(dumper);
}
std::ostream& operator<<(std::ostream& os, const Node& object) {
    const_cast<Node&>(object).dump(os);
    return os;
}
''')
    s(f'}}  // namespace {ns}')
    return '\n'.join(H) + '\n', '\n'.join(S) + '\n'


def main():
    spec = parse(open(sys.argv[1]).read())
    h, s = generate(spec)
    hp = os.path.join(sys.argv[2], spec['header'])
    os.makedirs(os.path.dirname(hp), exist_ok=True)
    open(hp, 'w').write(h)
    open(hp[:-4] + '.cpp', 'w').write(s)


if __name__ == '__main__':
    main()
