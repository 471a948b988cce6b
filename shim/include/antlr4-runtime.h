// Stand-in for the part of the ANTLR 4.13 C++ runtime that libqasm uses.
// The lexer and the parser are interpreted from grammars written out by gen_antlr.py;
// the lexer matches like LexerATNSimulator, the parser predicts with SLL/LL lookahead and reports the
// first error like DefaultErrorStrategy does.
#pragma once

#include <any>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <iostream>
#include <iterator>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace antlr4 {

class Recognizer;
class Parser;
class ParserRuleContext;

#ifdef EOF
#undef EOF  // as the real runtime does
#endif

class Token {
public:
    static constexpr size_t INVALID_TYPE = 0;
    
    
    static constexpr size_t EOF = static_cast<size_t>(-1);
    virtual ~Token() = default;
    virtual std::string getText() const { return text; }
    virtual size_t getType() const { return type; }
    virtual size_t getLine() const { return line; }
    virtual size_t getCharPositionInLine() const { return column; }
    virtual size_t getTokenIndex() const { return index; }
    virtual size_t getStartIndex() const { return start; }
    virtual size_t getStopIndex() const { return stop; }
    virtual size_t getChannel() const { return channel; }

    size_t type = 0, line = 1, column = 0, index = 0, start = 0, stop = 0, channel = 0;
    std::string text;
};

class ANTLRErrorListener {
public:
    virtual ~ANTLRErrorListener() = default;
    virtual void syntaxError(Recognizer* recognizer, Token* offendingSymbol, size_t line, size_t charPositionInLine,
        const std::string& msg, std::exception_ptr e) = 0;
};

class BaseErrorListener : public ANTLRErrorListener {
public:
    void syntaxError(Recognizer*, Token*, size_t, size_t, const std::string&, std::exception_ptr) override {}
};

class Recognizer {
    std::vector<ANTLRErrorListener*> listeners_;

public:
    virtual ~Recognizer() = default;
    void addErrorListener(ANTLRErrorListener* l) { listeners_.push_back(l); }
    void removeErrorListener(ANTLRErrorListener* l) { std::erase(listeners_, l); }
    void removeErrorListeners() { listeners_.clear(); }
    virtual std::string getGrammarFileName() const { return {}; }

protected:
    // with a listener that does not throw there is no recovery: the parse is given up
    [[noreturn]] void report(Token* symbol, size_t line, size_t column, const std::string& msg) {
        for (auto* l : std::vector<ANTLRErrorListener*>(listeners_)) {
            l->syntaxError(this, symbol, line, column, msg, nullptr);
        }
        throw std::runtime_error("shim: error recovery is not modelled: " + msg);
    }
};

class IntStream {
public:
    virtual ~IntStream() = default;
};

class CharStream : public IntStream {
public:
    std::u32string data;
    std::string text(size_t a, size_t b) const;  // code points [a, b)
};

class ANTLRInputStream : public CharStream {
public:
    ANTLRInputStream() = default;
    ANTLRInputStream(std::string_view input) { load(input); }
    ANTLRInputStream(const std::string& input) { load(input); }
    ANTLRInputStream(std::string&& input) { load(input); }
    ANTLRInputStream(const char* input) { load(std::string_view{ input }); }
    ANTLRInputStream(std::istream& is) { load(std::string(std::istreambuf_iterator<char>(is), {})); }
    void load(std::string_view input);
};

class ANTLRFileStream : public ANTLRInputStream {
public:
    ANTLRFileStream() = default;
    virtual void loadFromFile(const std::string& path);
};

namespace shim {

struct Vocabulary {
    std::vector<std::pair<std::string, bool>> names;
    std::string display(int type) const;
};

enum Command { SKIP, PUSH_MODE, MODE, POP_MODE, TYPE, CHANNEL, MORE };

struct L {
    enum Kind { LIT, SET, END, BLOCK, OPT, STAR, PLUS } kind;
    std::vector<char32_t> chars;
    std::vector<std::pair<char32_t, char32_t>> ranges;
    bool neg = false, greedy = true;
    std::vector<std::vector<L>> alts;

    static L lit(std::vector<char32_t> c) { L l{ LIT, {}, {}, false, true, {} }; l.chars = std::move(c); return l; }
    static L set(std::vector<std::pair<char32_t, char32_t>> r, bool n) {
        L l{ SET, {}, {}, n, true, {} };
        l.ranges = std::move(r);
        return l;
    }
    static L eof() { return L{ END, {}, {}, false, true, {} }; }
    static L block(std::vector<std::vector<L>> a) { return L{ BLOCK, {}, {}, false, true, std::move(a) }; }
    static L opt(std::vector<std::vector<L>> a, bool g) { return L{ OPT, {}, {}, false, g, std::move(a) }; }
    static L star(std::vector<std::vector<L>> a, bool g) { return L{ STAR, {}, {}, false, g, std::move(a) }; }
    static L plus(std::vector<std::vector<L>> a, bool g) { return L{ PLUS, {}, {}, false, g, std::move(a) }; }
};

struct LexerGrammar {
    struct State {
        enum Kind { EPS, CHARS, END, ACCEPT } kind = EPS;
        std::vector<int> next;                                 // EPS: in priority order
        std::vector<std::pair<char32_t, char32_t>> ranges;     // CHARS
        bool neg = false;
        bool nonGreedy = false;
    };
    struct Rule {
        int type, mode, start = -1;
        std::vector<std::vector<L>> alts;
        std::vector<std::pair<int, int>> commands;
        std::vector<std::vector<std::pair<int, int>>> altCommands;
    };
    int modes = 1;
    std::vector<Rule> rules;
    std::vector<State> states;
    std::vector<int> commandsAt;  // accept state -> rule alternative
    void add(int type, int mode, std::vector<L> els, std::vector<std::pair<int, int>> commands, bool more);
    void finish();

private:
    int make();
    int sequence(const std::vector<L>& els, int to);
    int element(const L& e, int to);
};

struct E {
    enum Kind { TOK, RULE, BLOCK, OPT, STAR, PLUS } kind = TOK;
    std::vector<int> toks;  // TOK (sorted)
    int rule = -1, prec = 0;
    std::vector<std::vector<E>> alts;
    // filled in by ParserGrammar::finish
    int state = -1;      // TOK/RULE: the state before it; BLOCK/OPT: block start; STAR: loop entry; PLUS: block start
    int back = -1;       // STAR/PLUS: loop back state
    int body = -1;       // STAR/PLUS with several alternatives: block start
    bool ll1 = false;                           // the decision of a BLOCK/OPT/STAR/PLUS
    std::vector<std::vector<bool>> look;        // per alternative of that decision, index = token type + 1
    std::vector<std::vector<bool>> bodyLook;
    bool bodyLl1 = false;

    static E make(Kind k, std::vector<int> t, std::vector<std::vector<E>> a) {
        E e;
        e.kind = k;
        e.toks = std::move(t);
        e.alts = std::move(a);
        return e;
    }
    static E tok(int t) { return make(TOK, { t }, {}); }
    static E set(std::vector<int> t) { return make(TOK, std::move(t), {}); }
    static E rule_(int r, int p) { E e = make(RULE, {}, {}); e.rule = r; e.prec = p; return e; }
    static E block(std::vector<std::vector<E>> a) { return make(BLOCK, {}, std::move(a)); }
    static E opt(std::vector<std::vector<E>> a) { return make(OPT, {}, std::move(a)); }
    static E star(std::vector<std::vector<E>> a) { return make(STAR, {}, std::move(a)); }
    static E plus(std::vector<std::vector<E>> a) { return make(PLUS, {}, std::move(a)); }
};

struct PState {
    enum Kind { BASIC, RULE_STOP, BLOCK_START, PLUS_BLOCK_START, STAR_LOOP_ENTRY, PLUS_LOOP_BACK, STAR_LOOP_BACK } kind = BASIC;
    int rule = -1;
    struct Edge {
        enum Kind { EPS, TOKENS, CALL, PREC } kind = EPS;
        int to = -1;
        std::vector<bool> set;  // TOKENS, index = token type + 1
        int callee = -1, prec = 0;
    };
    std::vector<Edge> edges;
};

struct ParserGrammar {
    struct Alt {
        std::vector<E> els;
        int cls;
        int prec = 0;  // operators only
    };
    struct Rule {
        std::string name;
        int cls;
        int start = -1, stop = -1;
        bool leftRecursive = false;
        std::vector<Alt> alts;
        std::vector<Alt> ops;
        // decision between the alternatives
        int state = -1;
        bool ll1 = false;
        std::vector<std::vector<bool>> look;
        // the operator loop
        int loop = -1, loopBack = -1;
        std::vector<std::vector<bool>> opLook;
        void alt(std::vector<E> els, int c) { alts.push_back({ std::move(els), c, 0 }); }
        void op(std::vector<E> els, int c, int p) { ops.push_back({ std::move(els), c, p }); }
    };
    int maxToken = 0;
    std::deque<Rule> rules;
    std::vector<PState> states;
    std::vector<std::vector<int>> callers;  // rule -> states following its invocations
    std::vector<std::vector<bool>> nextWithin;  // state -> tokens; last bit = the rule can end here

    Rule& rule(const char* name, int cls) {
        rules.push_back({});
        rules.back().name = name;
        rules.back().cls = cls;
        return rules.back();
    }
    void finish();

private:
    int make(PState::Kind kind, int rule);
    int sequence(std::vector<E>& els, int rule, int to);
    void eps(int a, int b);
    void lookahead(int state, std::vector<bool>& out, std::vector<int>& stack, bool follow,
        std::vector<std::pair<int, std::vector<int>>>& seen) const;
    std::vector<bool> lookFrom(int state, bool follow) const;
    void decide(std::vector<std::vector<bool>>& looks, bool& ll1, int decision) const;
    void decisions(std::vector<E>& els);
    friend class antlr4::Parser;
};

}  // namespace shim

class TokenSource {
public:
    virtual ~TokenSource() = default;
    virtual std::unique_ptr<Token> nextToken() = 0;
};

class Lexer : public Recognizer, public TokenSource {
    CharStream* input_;
    const shim::LexerGrammar& grammar_;
    size_t pos_ = 0, line_ = 1, column_ = 0;
    int mode_ = 0;
    std::vector<int> modes_;

public:
    Lexer(CharStream* input, const shim::LexerGrammar& grammar) : input_(input), grammar_(grammar) {}
    std::unique_ptr<Token> nextToken() override;
};

class TokenStream : public IntStream {
public:
    virtual Token* LT(size_t k) = 0;
    virtual size_t LA(size_t k) { return LT(k)->getType(); }
    virtual void consume() = 0;
    virtual size_t index() = 0;
    virtual Token* get(size_t i) = 0;
    virtual std::string text(size_t a, size_t b) = 0;
};

class CommonTokenStream : public TokenStream {
    TokenSource* source_;
    std::vector<std::unique_ptr<Token>> tokens_;
    size_t p_ = 0;
    bool started_ = false;
    bool sync(size_t i);
    void start();

public:
    explicit CommonTokenStream(TokenSource* source) : source_(source) {}
    Token* LT(size_t k) override;
    void consume() override;
    size_t index() override { start(); return p_; }
    Token* get(size_t i) override { return tokens_.at(i).get(); }
    std::string text(size_t a, size_t b) override;
    void fill();
    std::vector<Token*> getTokens() const;
};

namespace tree {

class ParseTreeVisitor;

class ParseTree {
public:
    ParseTree* parent = nullptr;
    std::vector<ParseTree*> children;
    virtual ~ParseTree() = default;
    virtual std::any accept(ParseTreeVisitor* visitor) = 0;
    virtual std::string getText() = 0;
};

class ParseTreeVisitor {
public:
    virtual ~ParseTreeVisitor() = default;
    virtual std::any visit(ParseTree* tree) { return tree->accept(this); }
    virtual std::any visitChildren(ParseTree* node) {
        std::any result;
        for (auto* c : node->children) {
            result = c->accept(this);
        }
        return result;
    }
};

class AbstractParseTreeVisitor : public ParseTreeVisitor {};

class TerminalNode : public ParseTree {
    Token* symbol_;

public:
    explicit TerminalNode(Token* s) : symbol_(s) {}
    Token* getSymbol() const { return symbol_; }
    std::string getText() override { return symbol_->getText(); }
    std::any accept(ParseTreeVisitor*) override { return {}; }
};

}  // namespace tree

class RuleContext : public tree::ParseTree {};

class ParserRuleContext : public RuleContext {
public:
    Token* start = nullptr;
    Token* stop = nullptr;
    size_t invokingState = 0;
    ParserRuleContext() = default;
    ParserRuleContext(ParserRuleContext* p, size_t invoking) : invokingState(invoking) { parent = p; }
    virtual size_t getRuleIndex() const { return static_cast<size_t>(-1); }
    Token* getStart() const { return start; }
    Token* getStop() const { return stop; }
    std::string getText() override {
        std::string s;
        for (auto* c : children) s += c->getText();
        return s;
    }
    std::any accept(tree::ParseTreeVisitor* visitor) override { return visitor->visitChildren(this); }

    tree::TerminalNode* getToken(size_t type, size_t i) const {
        for (auto* c : children) {
            auto* t = dynamic_cast<tree::TerminalNode*>(c);
            if (t && t->getSymbol()->getType() == type && i-- == 0) return t;
        }
        return nullptr;
    }
    std::vector<tree::TerminalNode*> getTokens(size_t type) const {
        std::vector<tree::TerminalNode*> r;
        for (auto* c : children) {
            auto* t = dynamic_cast<tree::TerminalNode*>(c);
            if (t && t->getSymbol()->getType() == type) r.push_back(t);
        }
        return r;
    }
    template <typename T>
    std::vector<T*> getRuleContexts() const {
        std::vector<T*> r;
        for (auto* c : children) {
            if (auto* t = dynamic_cast<T*>(c)) r.push_back(t);
        }
        return r;
    }
    template <typename T>
    T* getRuleContext(size_t i) const {
        for (auto* c : children) {
            if (auto* t = dynamic_cast<T*>(c)) {
                if (i-- == 0) return t;
            }
        }
        return nullptr;
    }
};

class Parser : public Recognizer {
public:
    using Create = ParserRuleContext* (*)(int, ParserRuleContext*, int);
    Parser(TokenStream* input, const shim::ParserGrammar& grammar, const shim::Vocabulary& vocabulary, Create create)
    : input_(input), g_(grammar), vocabulary_(vocabulary), create_(create) {}
    TokenStream* getTokenStream() { return input_; }

protected:
    ParserRuleContext* run(size_t rule);

private:
    struct Frame {
        int follow;  // state after the invocation; -1 for the outermost
        int prec;
        int rule;
    };
    TokenStream* input_;
    const shim::ParserGrammar& g_;
    const shim::Vocabulary& vocabulary_;
    Create create_;
    std::vector<Frame> frames_;
    std::vector<std::unique_ptr<tree::ParseTree>> owned_;
    int state_ = 0;

    ParserRuleContext* make(int cls, ParserRuleContext* parent, int invoking);
    ParserRuleContext* invoke(int rule, int prec, ParserRuleContext* parent, int follow);
    void elements(const std::vector<shim::E>& els, ParserRuleContext* ctx);
    void match(const shim::E& e, ParserRuleContext* ctx);
    void sync();
    int choose(const std::vector<std::vector<bool>>& look) const;
    std::vector<bool> expected() const;
    std::string expectedText() const;
    [[noreturn]] void fail(const std::string& msg);
    [[noreturn]] void mismatch();
    [[noreturn]] void unwanted();
    [[noreturn]] void noViable(size_t from, Token* offending);
    size_t predict(int decision);
    int la(size_t k);
};

}  // namespace antlr4
