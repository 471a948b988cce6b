#include "antlr4-runtime.h"

#include <algorithm>
#include <map>

namespace antlr4 {

// ------------------------------------------------------------------------------------------------ characters

void ANTLRInputStream::load(std::string_view s) {
    data.clear();
    if (s.size() >= 3 && s.substr(0, 3) == "\xef\xbb\xbf") {
        s.remove_prefix(3);
    }
    for (size_t i = 0; i < s.size();) {
        const auto c = static_cast<unsigned char>(s[i]);
        size_t n = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 0;
        bool ok = n != 0 && i + n <= s.size();
        char32_t v = n == 1 ? c : n == 2 ? c & 0x1f : n == 3 ? c & 0x0f : c & 0x07;
        for (size_t k = 1; ok && k < n; ++k) {
            const auto d = static_cast<unsigned char>(s[i + k]);
            ok = (d & 0xc0) == 0x80;
            v = (v << 6) | (d & 0x3f);
        }
        ok = ok && !(n == 2 && v < 0x80) && !(n == 3 && v < 0x800) && !(n == 4 && (v < 0x10000 || v > 0x10ffff)) &&
            !(v >= 0xd800 && v <= 0xdfff);
        if (!ok) {
            throw std::invalid_argument("UTF-8 string contains an illegal byte sequence");
        }
        data.push_back(v);
        i += n;
    }
}

void ANTLRFileStream::loadFromFile(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    load(std::string(std::istreambuf_iterator<char>(f), {}));
}

static void utf8(std::string& out, char32_t c) {
    if (c < 0x80) {
        out += static_cast<char>(c);
    } else if (c < 0x800) {
        out += static_cast<char>(0xc0 | (c >> 6));
        out += static_cast<char>(0x80 | (c & 0x3f));
    } else if (c < 0x10000) {
        out += static_cast<char>(0xe0 | (c >> 12));
        out += static_cast<char>(0x80 | ((c >> 6) & 0x3f));
        out += static_cast<char>(0x80 | (c & 0x3f));
    } else {
        out += static_cast<char>(0xf0 | (c >> 18));
        out += static_cast<char>(0x80 | ((c >> 12) & 0x3f));
        out += static_cast<char>(0x80 | ((c >> 6) & 0x3f));
        out += static_cast<char>(0x80 | (c & 0x3f));
    }
}

std::string CharStream::text(size_t a, size_t b) const {
    std::string s;
    for (; a < b && a < data.size(); ++a) utf8(s, data[a]);
    return s;
}

static std::string escape(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c == '\r') r += "\\r";
        else r += c;
    }
    return r;
}

// ------------------------------------------------------------------------------------------------ lexer

namespace shim {

std::string Vocabulary::display(int type) const {
    if (type == -1) return "<EOF>";
    return type >= 0 && type < static_cast<int>(names.size()) ? names[type].first : std::to_string(type);
}

void LexerGrammar::add(int type, int mode, std::vector<L> els, std::vector<std::pair<int, int>> commands, bool more) {
    if (!more) {
        rules.push_back({});
        rules.back().type = type;
        rules.back().mode = mode;
    }
    rules.back().alts.push_back(std::move(els));
    rules.back().altCommands.push_back(std::move(commands));
}

int LexerGrammar::make() {
    states.push_back({});
    return static_cast<int>(states.size()) - 1;
}

int LexerGrammar::sequence(const std::vector<L>& els, int to) {
    for (size_t i = els.size(); i-- > 0;) to = element(els[i], to);
    return to;
}

// returns the state at which e starts, continuing at state `to`
int LexerGrammar::element(const L& e, int to) {
    switch (e.kind) {
        case L::LIT:
            for (size_t i = e.chars.size(); i-- > 0;) {
                int s = make();
                states[s].kind = State::CHARS;
                states[s].ranges = { { e.chars[i], e.chars[i] } };
                states[s].next = { to };
                to = s;
            }
            return to;
        case L::SET: {
            int s = make();
            states[s].kind = State::CHARS;
            states[s].ranges = e.ranges;
            states[s].neg = e.neg;
            states[s].next = { to };
            return s;
        }
        case L::END: {
            int s = make();
            states[s].kind = State::END;
            states[s].next = { to };
            return s;
        }
        case L::BLOCK:
        case L::OPT: {
            int s = make();
            std::vector<int> next;
            for (auto& a : e.alts) next.push_back(sequence(a, to));
            if (e.kind == L::OPT) next.insert(e.greedy ? next.end() : next.begin(), to);
            states[s].next = next;
            states[s].nonGreedy = e.kind == L::OPT && !e.greedy;
            return s;
        }
        case L::STAR:
        case L::PLUS: {
            int loop = make();
            int body = make();
            std::vector<int> next;
            for (auto& a : e.alts) next.push_back(sequence(a, loop));
            states[body].next = next;
            states[loop].next = e.greedy ? std::vector<int>{ body, to } : std::vector<int>{ to, body };
            states[loop].nonGreedy = !e.greedy;
            return e.kind == L::STAR ? loop : body;
        }
    }
    return -1;
}

void LexerGrammar::finish() {
    for (auto& r : rules) {
        int s = make();
        std::vector<int> next;
        for (size_t i = 0; i < r.alts.size(); ++i) {
            int accept = make();
            states[accept].kind = State::ACCEPT;
            commandsAt.resize(states.size(), -1);
            commandsAt[accept] = static_cast<int>(i);
            next.push_back(sequence(r.alts[i], accept));
        }
        states[s].next = next;
        r.start = s;
    }
    commandsAt.resize(states.size(), -1);
}

namespace {

struct Cfg {
    int state;
    int rule;
    bool passed;
};

struct LexSim {
    const LexerGrammar& g;
    std::vector<uint32_t> seen;  // stamp per (state, passed); rules have disjoint states
    uint32_t stamp = 0;

    explicit LexSim(const LexerGrammar& grammar) : g(grammar), seen(grammar.states.size() * 2, 0) {}

    // true: an accept state was reached from here
    bool closure(Cfg c, std::vector<Cfg>& out, bool reached) {
        auto& st = g.states[c.state];
        auto& mark = seen[static_cast<size_t>(c.state) * 2 + (c.passed ? 1 : 0)];
        if (st.kind == LexerGrammar::State::ACCEPT) {
            if (mark != stamp) {
                mark = stamp;
                out.push_back(c);
            }
            return true;
        }
        if (st.kind != LexerGrammar::State::EPS) {
            if ((!reached || !c.passed) && mark != stamp) {
                mark = stamp;
                out.push_back(c);
            }
            return reached;
        }
        for (int n : st.next) {
            reached = closure({ n, c.rule, c.passed || g.states[n].nonGreedy }, out, reached);
        }
        return reached;
    }
};

bool matches(const LexerGrammar::State& s, char32_t c) {
    bool in = false;
    for (auto& [lo, hi] : s.ranges) in = in || (c >= lo && c <= hi);
    return in != s.neg;
}

}  // namespace
}  // namespace shim

std::unique_ptr<Token> Lexer::nextToken() {
    using shim::LexerGrammar;
    shim::LexSim sim{ grammar_ };
    const auto& data = input_->data;
    size_t start = pos_, startLine = line_, startColumn = column_;
    for (;;) {
        size_t p = pos_, line = line_, column = column_;
        std::vector<shim::Cfg> now, next;
        ++sim.stamp;
        for (int r = 0; r < static_cast<int>(grammar_.rules.size()); ++r) {
            if (grammar_.rules[r].mode != mode_) continue;
            const int s = grammar_.rules[r].start;
            sim.closure({ s, r, grammar_.states[s].nonGreedy }, now, false);
        }
        int accRule = -1, accAlt = -1;
        size_t accPos = 0, accLine = 0, accColumn = 0;
        bool atEnd = false;
        const size_t matchStart = pos_;
        while (!atEnd) {
            atEnd = p >= data.size();
            next.clear();
            ++sim.stamp;
            int skip = -1;
            for (auto& c : now) {
                auto& st = grammar_.states[c.state];
                const bool reached = c.rule == skip;
                if (reached && c.passed) continue;
                if (st.kind == LexerGrammar::State::ACCEPT) continue;
                const bool ok = atEnd ? st.kind == LexerGrammar::State::END
                                      : (st.kind == LexerGrammar::State::CHARS && shim::matches(st, data[p]));
                if (!ok) continue;
                const int n = st.next[0];
                if (sim.closure({ n, c.rule, c.passed || grammar_.states[n].nonGreedy }, next, reached)) skip = c.rule;
            }
            if (next.empty()) break;
            if (!atEnd) {
                if (data[p] == '\n') {
                    ++line;
                    column = 0;
                } else {
                    ++column;
                }
                ++p;
            }
            for (auto& c : next) {
                if (grammar_.states[c.state].kind == LexerGrammar::State::ACCEPT) {
                    accRule = c.rule;
                    accAlt = grammar_.commandsAt[c.state];
                    accPos = p;
                    accLine = line;
                    accColumn = column;
                    break;
                }
            }
            std::swap(now, next);
        }
        if (accRule < 0) {
            if (matchStart >= data.size()) {
                auto t = std::make_unique<Token>();
                t->type = Token::EOF;
                t->line = line_;
                t->column = column_;
                t->start = pos_;
                t->stop = pos_ - 1;
                t->text = "<EOF>";
                return t;
            }
            report(nullptr, startLine, startColumn,
                "token recognition error at: '" + escape(input_->text(start, p + 1)) + "'");
        }
        pos_ = accPos;
        line_ = accLine;
        column_ = accColumn;
        auto& rule = grammar_.rules[accRule];
        int type = rule.type;
        size_t channel = 0;
        bool skipIt = false, more = false;
        for (auto& [cmd, arg] : rule.altCommands[accAlt]) {
            switch (cmd) {
                case shim::SKIP: skipIt = true; break;
                case shim::PUSH_MODE: modes_.push_back(mode_); mode_ = arg; break;
                case shim::MODE: mode_ = arg; break;
                case shim::POP_MODE:
                    if (modes_.empty()) throw std::runtime_error("empty mode stack");
                    mode_ = modes_.back();
                    modes_.pop_back();
                    break;
                case shim::TYPE: type = arg; break;
                case shim::CHANNEL: channel = static_cast<size_t>(arg); break;
                case shim::MORE: more = true; break;
            }
        }
        if (more) continue;
        if (skipIt) {
            start = pos_;
            startLine = line_;
            startColumn = column_;
            continue;
        }
        auto t = std::make_unique<Token>();
        t->type = static_cast<size_t>(type);
        t->channel = channel;
        t->line = startLine;
        t->column = startColumn;
        t->start = start;
        t->stop = pos_ - 1;
        t->text = input_->text(start, pos_);
        return t;
    }
}

// ------------------------------------------------------------------------------------------------ tokens

bool CommonTokenStream::sync(size_t i) {
    while (tokens_.size() <= i) {
        if (!tokens_.empty() && tokens_.back()->getType() == Token::EOF) return false;
        auto t = source_->nextToken();
        t->index = tokens_.size();
        if (t->channel != 0 && t->getType() != Token::EOF) continue;  // hidden tokens are of no use here
        tokens_.push_back(std::move(t));
    }
    return true;
}

void CommonTokenStream::start() {
    if (!started_) {
        started_ = true;
        sync(0);
    }
}

Token* CommonTokenStream::LT(size_t k) {
    start();
    sync(p_ + k - 1);
    return tokens_[std::min(p_ + k - 1, tokens_.size() - 1)].get();
}

void CommonTokenStream::consume() {
    start();
    if (tokens_[p_]->getType() == Token::EOF) return;
    if (sync(p_ + 1)) ++p_;
}

std::string CommonTokenStream::text(size_t a, size_t b) {
    std::string s;
    for (; a <= b && a < tokens_.size(); ++a) {
        if (tokens_[a]->getType() == Token::EOF) break;
        s += tokens_[a]->getText();
    }
    return s;
}

void CommonTokenStream::fill() {
    start();
    while (sync(tokens_.size())) {}
}

std::vector<Token*> CommonTokenStream::getTokens() const {
    std::vector<Token*> r;
    for (auto& t : tokens_) r.push_back(t.get());
    return r;
}

// ------------------------------------------------------------------------------------------------ parser grammar

namespace shim {

int ParserGrammar::make(PState::Kind kind, int rule) {
    states.push_back({});
    states.back().kind = kind;
    states.back().rule = rule;
    return static_cast<int>(states.size()) - 1;
}

void ParserGrammar::eps(int a, int b) {
    PState::Edge e;
    e.to = b;
    states[a].edges.push_back(std::move(e));
}

// builds the states of els, ending at state `to`; returns the first state
int ParserGrammar::sequence(std::vector<E>& els, int rule, int to) {
    for (size_t i = els.size(); i-- > 0;) {
        auto& e = els[i];
        switch (e.kind) {
            case E::TOK: {
                std::sort(e.toks.begin(), e.toks.end());
                e.state = make(PState::BASIC, rule);
                PState::Edge edge;
                edge.kind = PState::Edge::TOKENS;
                edge.to = to;
                edge.set.assign(static_cast<size_t>(maxToken) + 2, false);
                for (int t : e.toks) edge.set[static_cast<size_t>(t + 1)] = true;
                states[e.state].edges.push_back(std::move(edge));
                to = e.state;
                break;
            }
            case E::RULE: {
                e.state = make(PState::BASIC, rule);
                PState::Edge edge;
                edge.kind = PState::Edge::CALL;
                edge.callee = e.rule;
                edge.prec = e.prec;
                edge.to = to;
                states[e.state].edges.push_back(std::move(edge));
                callers[static_cast<size_t>(e.rule)].push_back(to);
                to = e.state;
                break;
            }
            case E::BLOCK:
            case E::OPT: {
                e.state = make(PState::BLOCK_START, rule);
                for (auto& a : e.alts) {
                    int s = sequence(a, rule, to);
                    eps(e.state, s);
                }
                if (e.kind == E::OPT) eps(e.state, to);
                to = e.state;
                break;
            }
            case E::STAR: {
                e.state = make(PState::STAR_LOOP_ENTRY, rule);
                e.back = make(PState::STAR_LOOP_BACK, rule);
                e.body = make(PState::BLOCK_START, rule);
                eps(e.state, e.body);
                eps(e.state, to);
                eps(e.back, e.state);
                for (auto& a : e.alts) {
                    int s = sequence(a, rule, e.back);
                    eps(e.body, s);
                }
                to = e.state;
                break;
            }
            case E::PLUS: {
                e.state = make(PState::PLUS_BLOCK_START, rule);
                e.back = make(PState::PLUS_LOOP_BACK, rule);
                e.body = e.state;
                eps(e.back, e.state);
                eps(e.back, to);
                for (auto& a : e.alts) {
                    int s = sequence(a, rule, e.back);
                    eps(e.state, s);
                }
                to = e.state;
                break;
            }
        }
    }
    return to;
}

// tokens that can follow from state; index 0 = EOF, last = the end of the rule was reached
void ParserGrammar::lookahead(int state, std::vector<bool>& out, std::vector<int>& stack, bool follow,
    std::vector<std::pair<int, std::vector<int>>>& seen) const {
    for (auto& s : seen) {
        if (s.first == state && s.second == stack) return;
    }
    seen.push_back({ state, stack });
    const int rule = states[state].rule;
    if (state == rules[rule].stop) {
        if (!stack.empty()) {
            int to = stack.back();
            stack.pop_back();
            lookahead(to, out, stack, follow, seen);
            stack.push_back(to);
        } else if (!follow) {
            out.back() = true;
        } else if (callers[rule].empty()) {
            out[0] = true;
        } else {
            for (int c : callers[rule]) lookahead(c, out, stack, follow, seen);
        }
        return;
    }
    for (auto& e : states[state].edges) {
        switch (e.kind) {
            case PState::Edge::TOKENS:
                for (size_t i = 0; i < e.set.size(); ++i) {
                    if (e.set[i]) out[i] = true;
                }
                break;
            case PState::Edge::CALL:
                // nullable recursion would not end; a grammar with it is rejected by ANTLR
                if (stack.size() > 64) throw std::runtime_error("shim: left recursion");
                stack.push_back(e.to);
                lookahead(rules[e.callee].start, out, stack, follow, seen);
                stack.pop_back();
                break;
            default: lookahead(e.to, out, stack, follow, seen);
        }
    }
}

std::vector<bool> ParserGrammar::lookFrom(int state, bool follow) const {
    std::vector<bool> out(static_cast<size_t>(maxToken) + 3, false);
    std::vector<int> stack;
    std::vector<std::pair<int, std::vector<int>>> seen;
    lookahead(state, out, stack, follow, seen);
    return out;
}

void ParserGrammar::decide(std::vector<std::vector<bool>>& looks, bool& ll1, int decision) const {
    looks.clear();
    for (auto& e : states[decision].edges) looks.push_back(lookFrom(e.to, true));
    ll1 = true;
    std::vector<bool> all(static_cast<size_t>(maxToken) + 3, false);
    for (auto& l : looks) {
        bool any = false;
        for (size_t i = 0; i < l.size(); ++i) {
            if (!l[i]) continue;
            any = true;
            if (all[i]) ll1 = false;
            all[i] = true;
        }
        ll1 = ll1 && any;
    }
}

void ParserGrammar::decisions(std::vector<E>& els) {
    for (auto& e : els) {
        for (auto& a : e.alts) decisions(a);
        if (e.kind == E::BLOCK || e.kind == E::OPT) decide(e.look, e.ll1, e.state);
        if (e.kind == E::STAR) decide(e.look, e.ll1, e.state);
        if (e.kind == E::PLUS) decide(e.look, e.ll1, e.back);
        if (e.kind == E::STAR || e.kind == E::PLUS) decide(e.bodyLook, e.bodyLl1, e.body);
    }
}

void ParserGrammar::finish() {
    callers.resize(rules.size());
    for (size_t i = 0; i < rules.size(); ++i) {
        rules[i].stop = make(PState::BASIC, static_cast<int>(i));
        rules[i].start = make(PState::BASIC, static_cast<int>(i));
    }
    for (size_t i = 0; i < rules.size(); ++i) {
        auto& r = rules[i];
        const int ri = static_cast<int>(i);
        int to = r.stop;
        if (r.leftRecursive) {
            r.loop = make(PState::STAR_LOOP_ENTRY, ri);
            r.loopBack = make(PState::STAR_LOOP_BACK, ri);
            eps(r.loopBack, r.loop);
            const int body = make(PState::BLOCK_START, ri);
            eps(r.loop, body);
            eps(r.loop, r.stop);
            for (auto& op : r.ops) {
                const int s = make(PState::BASIC, ri);
                PState::Edge e;
                e.kind = PState::Edge::PREC;
                e.prec = op.prec;
                e.to = sequence(op.els, ri, r.loopBack);
                states[s].edges.push_back(e);
                eps(body, s);
            }
            to = r.loop;
        }
        r.state = make(PState::BLOCK_START, ri);
        for (auto& a : r.alts) {
            int s = sequence(a.els, ri, to);
            eps(r.state, s);
        }
        eps(r.start, r.state);
    }
    for (auto& r : rules) {
        decide(r.look, r.ll1, r.state);
        for (auto& a : r.alts) decisions(a.els);
        for (auto& op : r.ops) {
            decisions(op.els);
            r.opLook.push_back(lookFrom(op.els[0].state, false));
        }
    }
    for (size_t i = 0; i < states.size(); ++i) nextWithin.push_back(lookFrom(static_cast<int>(i), false));
}

}  // namespace shim

// ------------------------------------------------------------------------------------------------ parser

using shim::E;
using shim::PState;

int Parser::la(size_t k) {
    const size_t t = input_->LA(k);
    return t == Token::EOF ? -1 : static_cast<int>(t);
}

ParserRuleContext* Parser::make(int cls, ParserRuleContext* parent, int invoking) {
    std::unique_ptr<ParserRuleContext> c(create_(cls, parent, invoking));
    auto* p = c.get();
    owned_.push_back(std::move(c));
    return p;
}

std::vector<bool> Parser::expected() const {
    auto r = g_.nextWithin[state_];
    for (size_t f = frames_.size(); r.back() && f-- > 0;) {
        r.back() = false;
        if (frames_[f].follow < 0) {
            r[0] = true;
            break;
        }
        auto& n = g_.nextWithin[frames_[f].follow];
        for (size_t i = 0; i < n.size(); ++i) {
            if (n[i]) r[i] = true;
        }
    }
    r.back() = false;
    return r;
}

std::string Parser::expectedText() const {
    auto r = expected();
    std::string s;
    size_t n = 0;
    for (size_t i = 0; i < r.size(); ++i) {
        if (!r[i]) continue;
        if (n++) s += ", ";
        s += vocabulary_.display(static_cast<int>(i) - 1);
    }
    return n == 1 ? s : "{" + s + "}";
}

void Parser::fail(const std::string& msg) {
    auto* t = input_->LT(1);
    report(t, t->getLine(), t->getCharPositionInLine(), msg);
}

static std::string display(Token* t) { return "'" + escape(t->getText()) + "'"; }

void Parser::mismatch() {
    const auto* why = "mismatched input ";
    fail(why + display(input_->LT(1)) + " expecting " + expectedText());
}

void Parser::unwanted() { fail("extraneous input " + display(input_->LT(1)) + " expecting " + expectedText()); }

void Parser::noViable(size_t from, Token* offending) {
    std::string text = input_->get(from)->getType() == Token::EOF
        ? "<EOF>"
        : input_->text(from, offending->getTokenIndex());
    report(offending, offending->getLine(), offending->getCharPositionInLine(),
        "no viable alternative at input '" + escape(text) + "'");
}

void Parser::sync() {
    const auto& n = g_.nextWithin[state_];
    const int t = la(1);
    if (n.back() || n[static_cast<size_t>(t + 1)]) return;
    switch (g_.states[state_].kind) {
        case PState::BLOCK_START:
        case PState::PLUS_BLOCK_START:
        case PState::STAR_LOOP_ENTRY: {
            const int second = la(2);
            if (expected()[static_cast<size_t>(second + 1)]) unwanted();
            mismatch();
        }
        case PState::PLUS_LOOP_BACK:
        case PState::STAR_LOOP_BACK: unwanted();
        default: break;
    }
}

void Parser::match(const E& e, ParserRuleContext* ctx) {
    state_ = e.state;
    const int t = la(1);
    if (std::find(e.toks.begin(), e.toks.end(), t) == e.toks.end()) {
        const int second = la(2);
        if (expected()[static_cast<size_t>(second + 1)]) unwanted();
        const int saved = state_;
        state_ = g_.states[state_].edges[0].to;
        const bool insert = expected()[static_cast<size_t>(t + 1)];
        state_ = saved;
        if (insert) fail("missing " + expectedText() + " at " + display(input_->LT(1)));
        mismatch();
    }
    auto node = std::make_unique<tree::TerminalNode>(input_->LT(1));
    node->parent = ctx;
    ctx->children.push_back(node.get());
    owned_.push_back(std::move(node));
    input_->consume();
}

int Parser::choose(const std::vector<std::vector<bool>>& look) const {
    const size_t t = input_->LA(1) == Token::EOF ? 0 : input_->LA(1) + 1;
    for (size_t i = 0; i < look.size(); ++i) {
        if (look[i][t]) return static_cast<int>(i);
    }
    return -1;
}

void Parser::elements(const std::vector<E>& els, ParserRuleContext* ctx) {
    for (auto& e : els) {
        switch (e.kind) {
            case E::TOK: match(e, ctx); break;
            case E::RULE: {
                state_ = e.state;
                ParserRuleContext* child = invoke(e.rule, e.prec, ctx, g_.states[e.state].edges[0].to);
                ctx->children.push_back(child);
                break;
            }
            case E::BLOCK:
            case E::OPT: {
                state_ = e.state;
                sync();
                int alt = e.ll1 ? choose(e.look) : static_cast<int>(predict(e.state));
                if (alt < 0 && e.kind == E::BLOCK) noViable(input_->LT(1)->getTokenIndex(), input_->LT(1));
                if (alt >= 0 && alt < static_cast<int>(e.alts.size())) elements(e.alts[alt], ctx);
                break;
            }
            case E::STAR:
            case E::PLUS: {
                state_ = e.state;
                sync();
                bool first = e.kind == E::PLUS;
                for (;;) {
                    if (!first) {
                        const int decision = e.kind == E::STAR ? e.state : e.back;
                        int alt = e.ll1 ? choose(e.look) : static_cast<int>(predict(decision));
                        if (alt != 0) break;
                    }
                    first = false;
                    int which = 0;
                    if (e.alts.size() > 1) {
                        state_ = e.body;
                        sync();
                        which = e.bodyLl1 ? choose(e.bodyLook) : static_cast<int>(predict(e.body));
                        if (which < 0) noViable(input_->LT(1)->getTokenIndex(), input_->LT(1));
                    }
                    elements(e.alts[which], ctx);
                    state_ = e.back;
                    sync();
                }
                break;
            }
        }
    }
}

ParserRuleContext* Parser::invoke(int rule, int prec, ParserRuleContext* parent, int follow) {
    auto& r = g_.rules[rule];
    if (frames_.size() > 20000) throw std::runtime_error("shim: the input nests too deeply");
    frames_.push_back({ follow, prec, rule });
    const int invoking = state_;
    Token* start = input_->LT(1);
    int alt = 0;
    state_ = r.state;
    if (r.alts.size() > 1) {
        sync();
        alt = r.ll1 ? choose(r.look) : static_cast<int>(predict(r.state));
        if (alt < 0) noViable(input_->LT(1)->getTokenIndex(), input_->LT(1));
    }
    auto& a = r.alts[alt];
    auto* ctx = make(a.cls >= 0 ? a.cls : r.cls, parent, invoking);
    ctx->start = start;
    elements(a.els, ctx);
    auto finish = [&] {
        const size_t i = input_->index();
        ctx->stop = input_->LA(1) == Token::EOF && !ctx->children.empty() &&
                dynamic_cast<tree::TerminalNode*>(ctx->children.back()) != nullptr &&
                dynamic_cast<tree::TerminalNode*>(ctx->children.back())->getSymbol()->getType() == Token::EOF
            ? input_->LT(1)
            : i > 0 ? input_->get(i - 1) : nullptr;
    };
    finish();
    if (r.leftRecursive) {
        state_ = r.loop;
        sync();
        for (;;) {
            const size_t t = static_cast<size_t>(la(1) + 1);
            int op = -1;
            for (size_t i = 0; i < r.ops.size() && op < 0; ++i) {
                if (r.ops[i].prec >= frames_.back().prec && r.opLook[i][t]) op = static_cast<int>(i);
            }
            if (op < 0) break;
            auto& o = r.ops[op];
            auto* outer = make(o.cls >= 0 ? o.cls : r.cls, parent, invoking);
            outer->start = start;
            outer->children.push_back(ctx);
            ctx->parent = outer;
            ctx = outer;
            elements(o.els, ctx);
            finish();
            state_ = r.loopBack;
            sync();
        }
    }
    frames_.pop_back();
    return ctx;
}

ParserRuleContext* Parser::run(size_t rule) {
    frames_.clear();
    state_ = 0;
    return invoke(static_cast<int>(rule), 0, nullptr, -1);
}

// ------------------------------------------------------------------------------------------------ prediction

namespace {

struct Node {
    int parent;  // -1: bottom
    int ret;
    int prec;
    auto operator<=>(const Node&) const = default;
};

struct Config {
    int state;
    int stack;  // node index, -1: nothing known below
    int prec;   // of the current frame, -1: unknown
    int alt;
    bool dipped;
    auto operator<=>(const Config&) const = default;
};

struct Predictor {
    const shim::ParserGrammar& g;
    bool full;
    int decisionRule;
    std::vector<Node> nodes;
    std::map<Node, int> index;

    int node(Node n) {
        auto [it, fresh] = index.try_emplace(n, static_cast<int>(nodes.size()));
        if (fresh) nodes.push_back(n);
        return it->second;
    }

    // keeps stable states only: those with a token edge, and the end of everything
    void closure(Config c, std::vector<Config>& out, std::vector<Config>& seen) {
        for (auto& s : seen) {
            if (s == c) return;
        }
        seen.push_back(c);
        auto& st = g.states[c.state];
        if (c.state == g.rules[st.rule].stop) {
            if (c.stack >= 0) {
                const Node n = nodes[c.stack];
                if (n.ret < 0) {
                    out.push_back(c);  // the end of the outermost rule
                    return;
                }
                closure({ n.ret, n.parent, n.prec, c.alt, c.dipped }, out, seen);
                return;
            }
            if (g.callers[st.rule].empty()) {
                out.push_back({ c.state, -1, -1, c.alt, true });
                return;
            }
            for (int f : g.callers[st.rule]) closure({ f, -1, -1, c.alt, true }, out, seen);
            return;
        }
        bool tokens = false;
        for (auto& e : st.edges) {
            switch (e.kind) {
                case PState::Edge::TOKENS: tokens = true; break;
                case PState::Edge::EPS: closure({ e.to, c.stack, c.prec, c.alt, c.dipped }, out, seen); break;
                case PState::Edge::PREC:
                    if (c.prec < 0 || e.prec >= c.prec) closure({ e.to, c.stack, c.prec, c.alt, c.dipped }, out, seen);
                    break;
                case PState::Edge::CALL:
                    closure({ g.rules[e.callee].start, node({ c.stack, e.to, c.prec }), e.prec, c.alt, c.dipped }, out, seen);
                    break;
            }
        }
        if (tokens) out.push_back(c);
    }
};

}  // namespace

// adaptivePredict: SLL first, LL with the real call stack when SLL finds a conflict.
// returns the alternative (edge of the decision state, from 0)
size_t Parser::predict(int decision) {
    const size_t from = input_->LT(1)->getTokenIndex();
    for (int pass = 0; pass < 2; ++pass) {
        Predictor p{ g_, pass == 1, g_.states[decision].rule, {}, {} };
        int stack = -1;
        if (p.full) {
            // frames_[0] is the outermost invocation; its end is marked with ret = -1
            for (size_t i = 0; i < frames_.size(); ++i) {
                const int callerPrec = i == 0 ? -1 : frames_[i - 1].prec;
                stack = p.node({ stack, frames_[i].follow, callerPrec });
            }
        }
        std::vector<Config> now, next, seen;
        for (size_t i = 0; i < g_.states[decision].edges.size(); ++i) {
            p.closure({ g_.states[decision].edges[i].to, stack, frames_.back().prec, static_cast<int>(i), false }, now, seen);
        }
        bool conflict = false;
        for (size_t k = 1; !conflict; ++k) {
            const size_t t = static_cast<size_t>(la(k) + 1);
            next.clear();
            seen.clear();
            for (auto& c : now) {
                auto& st = g_.states[c.state];
                if (c.state == g_.rules[st.rule].stop) {
                    if (t == 0) {  // after the end there is nothing but EOF
                        p.closure(c, next, seen);
                    }
                    continue;
                }
                for (auto& e : st.edges) {
                    if (e.kind == PState::Edge::TOKENS && e.set[t]) {
                        p.closure({ e.to, c.stack, c.prec, c.alt, c.dipped }, next, seen);
                    }
                }
            }
            if (next.empty()) {
                int best = -1;
                for (auto& c : now) {
                    const bool finished = c.dipped || (c.state == g_.rules[g_.states[c.state].rule].stop);
                    if (finished && (best < 0 || c.alt < best)) best = c.alt;
                }
                if (best >= 0) return static_cast<size_t>(best);
                noViable(from, input_->LT(k));
            }
            bool unique = true;
            for (auto& c : next) unique = unique && c.alt == next[0].alt;
            if (unique) return static_cast<size_t>(next[0].alt);
            // a conflict: every (state, stack) is reached by more than one alternative
            std::map<std::pair<int, int>, std::vector<int>> sets;
            for (auto& c : next) sets[{ c.state, c.stack }].push_back(c.alt);
            bool all = true;
            int lowest = -1;
            bool same = true;
            for (auto& [key, alts] : sets) {
                const auto [lo, hi] = std::minmax_element(alts.begin(), alts.end());
                all = all && *lo != *hi;
                if (lowest >= 0 && lowest != *lo) same = false;
                lowest = lowest < 0 ? *lo : std::min(lowest, *lo);
            }
            if (!p.full && all) {
                conflict = true;
            } else if (p.full && all && same) {
                return static_cast<size_t>(lowest);
            } else if (t == 0) {
                // nothing more to read: full context resolves, SLL hands over
                if (!p.full) {
                    conflict = true;
                } else {
                    return static_cast<size_t>(std::min_element(next.begin(), next.end(), [](auto& a, auto& b) {
                        return a.alt < b.alt;
                    })->alt);
                }
            }
            std::swap(now, next);
        }
    }
    return 0;
}

}  // namespace antlr4
