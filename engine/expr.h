// Hash-consed bit-vector expressions with local simplification, and their translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <functional>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct Node {
    Op op;
    bool undef;          // mentions uninitialised memory or undef
    uint16_t w;
    uint32_t id;
    const Node *k[3];
    u128 c;              // CONST: value; EXTRACT: low bit; VAR: variable number
    mutable Z3_ast z;
    mutable std::shared_ptr<std::vector<uint32_t>> vars;
};
typedef const Node *E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u128 trunc(u128 v, unsigned w) { return v & maskw(w); }
static inline s128 sx(u128 v, unsigned w) {
    if (w >= 128) return (s128)v;
    u128 s = (u128)1 << (w - 1);
    v &= maskw(w);
    return (s128)((v ^ s) - s);
}

struct VarInfo { std::string name; bool undef; unsigned w; };

struct ExprCtx {
    struct H { size_t operator()(const Node *n) const {
        size_t h = n->op * 1315423911u + n->w;
        for (int i = 0; i < 3; i++) h = h * 1000003 + (n->k[i] ? n->k[i]->id : 0x9e37);
        h = h * 1000003 + (uint64_t)n->c; h = h * 1000003 + (uint64_t)(n->c >> 64);
        return h;
    } };
    struct Q { bool operator()(const Node *a, const Node *b) const {
        return a->op == b->op && a->w == b->w && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2] && a->c == b->c;
    } };
    std::unordered_set<const Node *, H, Q> tab;
    std::vector<VarInfo> vars;
    uint32_t next = 1;
    Z3_context zc;

    ExprCtx() {
        Z3_config cfg = Z3_mk_config();
        zc = Z3_mk_context(cfg);   // non-rc: asts live as long as the context
        Z3_del_config(cfg);
    }

    E intern(Op op, unsigned w, E a = nullptr, E b = nullptr, E d = nullptr, u128 c = 0, bool undef = false) {
        Node t; t.op = op; t.w = w; t.k[0] = a; t.k[1] = b; t.k[2] = d; t.c = c; t.id = 0;
        auto it = tab.find(&t);
        if (it != tab.end()) return *it;
        Node *n = new Node(t);
        n->id = next++;
        n->z = nullptr;
        n->undef = undef || (a && a->undef) || (b && b->undef) || (d && d->undef);
        tab.insert(n);
        return n;
    }
    E con(u128 v, unsigned w) { return intern(CONST, w, 0, 0, 0, trunc(v, w)); }
    E var(const std::string &name, unsigned w, bool undef) {
        vars.push_back({name, undef, w});
        return intern(VAR, w, 0, 0, 0, vars.size() - 1, undef);
    }

    static bool evalOp(Op op, unsigned w, unsigned kw, u128 a, u128 b, u128 &r) {
        switch (op) {
        case ADD: r = a + b; break;
        case SUB: r = a - b; break;
        case MUL: r = a * b; break;
        case UDIV: r = b ? a / b : ~(u128)0; break;
        case UREM: r = b ? a % b : a; break;
        case SDIV: { s128 x = sx(a, kw), y = sx(b, kw); r = y == 0 ? (x < 0 ? 1 : ~(u128)0) : (y == -1 ? (u128)0 - (u128)x : (u128)(x / y)); break; }
        case SREM: { s128 x = sx(a, kw), y = sx(b, kw); r = y == 0 ? (u128)x : (y == -1 ? 0 : (u128)(x % y)); break; }
        case AND: r = a & b; break;
        case OR: r = a | b; break;
        case XOR: r = a ^ b; break;
        case SHL: r = b >= w ? 0 : a << (unsigned)b; break;
        case LSHR: r = b >= w ? 0 : a >> (unsigned)b; break;
        case ASHR: { s128 x = sx(a, kw); r = (u128)(b >= kw ? (x < 0 ? (s128)-1 : 0) : x >> (unsigned)b); break; }
        case EQ: r = a == b; break;
        case ULT: r = a < b; break;
        case ULE: r = a <= b; break;
        case SLT: r = sx(a, kw) < sx(b, kw); break;
        case SLE: r = sx(a, kw) <= sx(b, kw); break;
        default: return false;
        }
        r = trunc(r, w);
        return true;
    }

    E bin(Op op, E a, E b) {
        unsigned kw = a->w, w = (op >= EQ && op <= SLE) ? 1 : a->w;
        if (a->op == CONST && b->op == CONST) { u128 r; evalOp(op, w, kw, a->c, b->c, r); return con(r, w); }
        bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
        if (comm && (a->op == CONST || (b->op != CONST && a->id > b->id))) std::swap(a, b);   // constant on the right
        bool bc = b->op == CONST;
        switch (op) {
        case ADD:
            if (bc && b->c == 0) return a;
            if (bc && a->op == ADD && a->k[1]->op == CONST) return bin(ADD, a->k[0], con(a->k[1]->c + b->c, w));
            break;
        case SUB:
            if (a == b) return con(0, w);
            if (bc) return bin(ADD, a, con((u128)0 - b->c, w));
            break;
        case MUL:
            if (bc && b->c == 0) return b;
            if (bc && b->c == 1) return a;
            break;
        case AND:
            if (a == b) return a;
            if (bc && b->c == 0) return b;
            if (bc && b->c == maskw(w)) return a;
            if (bc) {   // low mask
                unsigned n = 0; u128 m = b->c; while (m & 1) { n++; m >>= 1; }
                if (m == 0 && n < w) return zext(extract(a, 0, n), w);
            }
            break;
        case OR:
            if (a == b) return a;
            if (bc && b->c == 0) return a;
            if (bc && b->c == maskw(w)) return b;
            break;
        case XOR:
            if (a == b) return con(0, w);
            if (bc && b->c == 0) return a;
            if (bc && a->op == XOR && a->k[1]->op == CONST) return bin(XOR, a->k[0], con(a->k[1]->c ^ b->c, w));
            break;
        case SHL:
            if (bc) { if (b->c == 0) return a; if (b->c >= w) return con(0, w);
                return concat(extract(a, 0, w - (unsigned)b->c), con(0, (unsigned)b->c)); }
            break;
        case LSHR:
            if (bc) { if (b->c == 0) return a; if (b->c >= w) return con(0, w);
                return zext(extract(a, (unsigned)b->c, w - (unsigned)b->c), w); }
            break;
        case ASHR:
            if (bc && b->c == 0) return a;
            if (bc && b->c < w) return sext(extract(a, (unsigned)b->c, w - (unsigned)b->c), w);
            break;
        case EQ:
            if (a == b) return con(1, 1);
            if (kw == 1 && bc) return b->c ? a : lnot(a);
            if (bc) {
                if (a->op == ZEXT) {
                    unsigned iw = a->k[0]->w;
                    if (b->c >> iw) return con(0, 1);
                    return bin(EQ, a->k[0], con(b->c, iw));
                }
                if (a->op == ITE && a->k[1]->op == CONST && a->k[2]->op == CONST) {
                    bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
                    if (t && f) return con(1, 1);
                    if (t) return a->k[0];
                    if (f) return lnot(a->k[0]);
                    return con(0, 1);
                }
                if (a->op == ITE && (a->k[1]->op == CONST || a->k[2]->op == CONST) )
                    return ite(a->k[0], bin(EQ, a->k[1], b), bin(EQ, a->k[2], b));
                if (a->op == ADD && a->k[1]->op == CONST) return bin(EQ, a->k[0], con(b->c - a->k[1]->c, kw));
                if (a->op == XOR && a->k[1]->op == CONST) return bin(EQ, a->k[0], con(b->c ^ a->k[1]->c, kw));
                if (a->op == CONCAT) {
                    unsigned lw = a->k[1]->w;
                    if (a->k[1]->op == CONST || a->k[0]->op == CONST)
                    return bin(AND, bin(EQ, a->k[0], con(b->c >> lw, a->k[0]->w)), bin(EQ, a->k[1], con(b->c, lw)));
                }
            }
            break;
        case ULT:
            if (a == b) return con(0, 1);
            if (bc && b->c == 0) return con(0, 1);
            if (a->op == CONST && a->c == maskw(kw)) return con(0, 1);
            if (bc && a->op == ZEXT && (b->c >> a->k[0]->w)) return con(1, 1);
            if (bc && b->c == 1) return bin(EQ, a, con(0, kw));
            break;
        case ULE:
            if (a == b) return con(1, 1);
            if (bc && b->c == maskw(kw)) return con(1, 1);
            if (a->op == CONST && a->c == 0) return con(1, 1);
            if (bc && a->op == ZEXT && (b->c >> a->k[0]->w)) return con(1, 1);
            break;
        case SLT: if (a == b) return con(0, 1); break;
        case SLE: if (a == b) return con(1, 1); break;
        default: break;
        }
        return intern(op, w, a, b);
    }
    E lnot(E a) {   // bitwise not
        return bin(XOR, a, con(maskw(a->w), a->w));
    }
    E ite(E c, E t, E f) {
        if (c->op == CONST) return c->c ? t : f;
        if (t == f) return t;
        if (t->w == 1 && t->op == CONST && f->op == CONST) return t->c ? c : lnot(c);
        if (t->w == 1) {
            if (t->op == CONST) return t->c ? bin(OR, c, f) : bin(AND, lnot(c), f);
            if (f->op == CONST) return f->c ? bin(OR, lnot(c), t) : bin(AND, c, t);
        }
        if (c->op == XOR && c->k[1]->op == CONST && c->w == 1) return ite(c->k[0], f, t);
        return intern(ITE, t->w, c, t, f);
    }
    E extract(E a, unsigned lo, unsigned w) {
        if (lo == 0 && w == a->w) return a;
        switch (a->op) {
        case CONST: return con(a->c >> lo, w);
        case EXTRACT: return extract(a->k[0], (unsigned)a->c + lo, w);
        case CONCAT: {
            unsigned lw = a->k[1]->w;
            if (lo + w <= lw) return extract(a->k[1], lo, w);
            if (lo >= lw) return extract(a->k[0], lo - lw, w);
            return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo));
        }
        case ZEXT: {
            unsigned iw = a->k[0]->w;
            if (lo >= iw) return con(0, w);
            if (lo + w <= iw) return extract(a->k[0], lo, w);
            return zext(extract(a->k[0], lo, iw - lo), w);
        }
        case SEXT: if (lo + w <= a->k[0]->w) return extract(a->k[0], lo, w); break;
        case ITE:
            if (a->k[1]->op == CONST || a->k[2]->op == CONST) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
            break;
        case AND: case OR: case XOR:
            if (a->k[1]->op == CONST) return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
            break;
        default: break;
        }
        return intern(EXTRACT, w, a, 0, 0, lo);
    }
    E concat(E hi, E lo) {
        unsigned w = hi->w + lo->w;
        if (hi->op == CONST && lo->op == CONST) return con((hi->c << lo->w) | lo->c, w);
        if (hi->op == CONST && hi->c == 0) return zext(lo, w);
        if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
            return extract(hi->k[0], (unsigned)lo->c, w);
        if (lo->op == CONCAT && hi->op == EXTRACT && lo->k[0]->op == EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->c == lo->k[0]->c + lo->k[0]->w)
            return concat(extract(hi->k[0], (unsigned)lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
        if (hi->op == ZEXT) return zext(concat(hi->k[0], lo), w);
        return intern(CONCAT, w, hi, lo);
    }
    E zext(E a, unsigned w) {
        if (a->w == w) return a;
        if (a->op == CONST) return con(a->c, w);
        if (a->op == ZEXT) return zext(a->k[0], w);
        return intern(ZEXT, w, a);
    }
    E sext(E a, unsigned w) {
        if (a->w == w) return a;
        if (a->op == CONST) return con((u128)sx(a->c, a->w), w);
        if (a->op == ZEXT) return zext(a->k[0], w);
        return intern(SEXT, w, a);
    }

    const std::shared_ptr<std::vector<uint32_t>> &varsOf(E n) {
        if (n->vars) return n->vars;
        auto r = std::make_shared<std::vector<uint32_t>>();
        if (n->op == VAR) r->push_back((uint32_t)n->c);
        else {
            E only = nullptr; int cnt = 0;
            for (int i = 0; i < 3; i++) if (n->k[i]) {
                auto &v = varsOf(n->k[i]);
                if (!v->empty()) { cnt++; only = n->k[i]; r->insert(r->end(), v->begin(), v->end()); }
            }
            if (cnt == 1) { n->vars = only->vars; return n->vars; }
            std::sort(r->begin(), r->end());
            r->erase(std::unique(r->begin(), r->end()), r->end());
        }
        n->vars = r;
        return n->vars;
    }

    Z3_ast boolOf(E n) { return Z3_mk_eq(zc, toZ3(n), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1))); }
    Z3_ast b2v(Z3_ast b) {
        Z3_sort s1 = Z3_mk_bv_sort(zc, 1);
        return Z3_mk_ite(zc, b, Z3_mk_unsigned_int64(zc, 1, s1), Z3_mk_unsigned_int64(zc, 0, s1));
    }
    Z3_ast toZ3(E n) {
        if (n->z) return n->z;
        // iterative on the left spine would be needed for very deep terms; ours stay shallow enough for a big stack
        Z3_ast k[3] = {0, 0, 0};
        for (int i = 0; i < 3; i++) if (n->k[i]) k[i] = toZ3(n->k[i]);
        Z3_ast r = 0;
        switch (n->op) {
        case CONST: {
            Z3_sort s = Z3_mk_bv_sort(zc, n->w);
            if (n->w <= 64) r = Z3_mk_unsigned_int64(zc, (uint64_t)n->c, s);
            else r = Z3_mk_concat(zc, Z3_mk_unsigned_int64(zc, (uint64_t)(n->c >> 64), Z3_mk_bv_sort(zc, n->w - 64)),
                                  Z3_mk_unsigned_int64(zc, (uint64_t)n->c, Z3_mk_bv_sort(zc, 64)));
            break;
        }
        case VAR: r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, (int)n->c), Z3_mk_bv_sort(zc, n->w)); break;
        case ADD: r = Z3_mk_bvadd(zc, k[0], k[1]); break;
        case SUB: r = Z3_mk_bvsub(zc, k[0], k[1]); break;
        case MUL: r = Z3_mk_bvmul(zc, k[0], k[1]); break;
        case UDIV: r = Z3_mk_bvudiv(zc, k[0], k[1]); break;
        case SDIV: r = Z3_mk_bvsdiv(zc, k[0], k[1]); break;
        case UREM: r = Z3_mk_bvurem(zc, k[0], k[1]); break;
        case SREM: r = Z3_mk_bvsrem(zc, k[0], k[1]); break;
        case AND: r = Z3_mk_bvand(zc, k[0], k[1]); break;
        case OR: r = Z3_mk_bvor(zc, k[0], k[1]); break;
        case XOR: r = Z3_mk_bvxor(zc, k[0], k[1]); break;
        case SHL: r = Z3_mk_bvshl(zc, k[0], k[1]); break;
        case LSHR: r = Z3_mk_bvlshr(zc, k[0], k[1]); break;
        case ASHR: r = Z3_mk_bvashr(zc, k[0], k[1]); break;
        case EQ: r = b2v(Z3_mk_eq(zc, k[0], k[1])); break;
        case ULT: r = b2v(Z3_mk_bvult(zc, k[0], k[1])); break;
        case ULE: r = b2v(Z3_mk_bvule(zc, k[0], k[1])); break;
        case SLT: r = b2v(Z3_mk_bvslt(zc, k[0], k[1])); break;
        case SLE: r = b2v(Z3_mk_bvsle(zc, k[0], k[1])); break;
        case ITE: r = Z3_mk_ite(zc, boolOf(n->k[0]), k[1], k[2]); break;
        case CONCAT: r = Z3_mk_concat(zc, k[0], k[1]); break;
        case EXTRACT: r = Z3_mk_extract(zc, (unsigned)n->c + n->w - 1, (unsigned)n->c, k[0]); break;
        case ZEXT: r = Z3_mk_zero_ext(zc, n->w - n->k[0]->w, k[0]); break;
        case SEXT: r = Z3_mk_sign_ext(zc, n->w - n->k[0]->w, k[0]); break;
        }
        n->z = r;
        return r;
    }
};

typedef std::unordered_map<uint32_t, u128> Model;

struct Evaluator {
    const Model &m;
    std::unordered_map<E, u128> memo;
    explicit Evaluator(const Model &m) : m(m) {}
    u128 ev(E n) {
        if (n->op == CONST) return n->c;
        if (n->op == VAR) { auto it = m.find((uint32_t)n->c); return it == m.end() ? 0 : it->second; }
        auto it = memo.find(n);
        if (it != memo.end()) return it->second;
        u128 r = 0;
        switch (n->op) {
        case ITE: r = ev(n->k[0]) ? ev(n->k[1]) : ev(n->k[2]); break;
        case CONCAT: r = (ev(n->k[0]) << n->k[1]->w) | ev(n->k[1]); break;
        case EXTRACT: r = trunc(ev(n->k[0]) >> (unsigned)n->c, n->w); break;
        case ZEXT: r = ev(n->k[0]); break;
        case SEXT: r = trunc((u128)sx(ev(n->k[0]), n->k[0]->w), n->w); break;
        default: ExprCtx::evalOp(n->op, n->w, n->k[0]->w, ev(n->k[0]), ev(n->k[1]), r);
        }
        memo[n] = r;
        return r;
    }
};
