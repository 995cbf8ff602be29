"""C side of the generated programs: a driver that calls each exported function through the generated header."""
import json
from progen import *

PRELUDE = r'''
#include "header.h"
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <sys/types.h>

/* ---- allocator with canaries, shared by C and Rust */
extern void *__libc_malloc(size_t); extern void __libc_free(void *); extern void *__libc_memalign(size_t, size_t);
#define MAGIC 0x600dA110C8ull
static long live; static void *trace_p;
struct hd { size_t n; uint64_t m; void *base; uint64_t pad; };
static void die(char const *m) { char b[200]; int k = snprintf(b, sizeof b, "MISMATCH %s\n", m); fflush(stdout); if (write(1, b, k)) {} _exit(3); }
static void *mk(size_t al, size_t n) {
    if (al < 16) al = 16;
    size_t off = al < sizeof(struct hd) ? sizeof(struct hd) : al;
    char *b = __libc_memalign(al, off + n + 8);
    if (!b) return 0;
    char *p = b + off; struct hd *h = (struct hd *)p - 1;
    h->n = n; h->m = MAGIC ^ (uintptr_t)p; h->base = b;
    memset(p, 0xAB, n); memset(p + n, 0xC5, 8); live++;
    return p;
}
static struct hd *ck(void *p) {
    struct hd *h = (struct hd *)p - 1;
    if (h->m != (MAGIC ^ (uintptr_t)p)) die("free of something that is not a live heap block");
    for (int i = 0; i < 8; i++) if (((unsigned char *)p)[h->n + i] != 0xC5) die("write past the end of a heap block");
    return h;
}
void *malloc(size_t n) { return mk(16, n); }
void free(void *p) { if (!p) return; struct hd *h = ck(p); void *b = h->base; memset(p, 0xDD, h->n); h->m = 0; live--; __libc_free(b); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; void *p = mk(16, n); if (p) memset(p, 0, n); return p; }
void *realloc(void *p, size_t n) { if (!p) return mk(16, n); struct hd *h = ck(p); void *q = mk(16, n); if (!q) return 0; memcpy(q, p, h->n < n ? h->n : n); free(p); return q; }
int posix_memalign(void **o, size_t al, size_t n) { *o = mk(al, n); return *o ? 0 : 12; }
void *aligned_alloc(size_t al, size_t n) { return mk(al, n); }
void *memalign(size_t al, size_t n) { return mk(al, n); }

/* ---- Rust side */
extern void vh_sent(char const *, size_t); extern void vh_recv(char const *, size_t);
extern void vh_seed(uint64_t); extern void vh_reset(void); extern int vh_end(void); extern uint64_t vh_crossings(void);
extern void vh_drop_cstr(char *);

/* ---- randomness */
static uint64_t st;
static uint64_t rnext(void) { uint64_t z = (st += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t rbelow(uint64_t n) { return rnext() % n; }
static uint64_t rbits(void) { switch (rbelow(8)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << rbelow(64); case 3: return rbelow(256); case 4: return ~(1ull << rbelow(64)); default: return rnext(); } }
static size_t rlen(void) { switch (rbelow(8)) { case 0: case 1: return 0; case 7: return 5 + rbelow(40); default: return 1 + rbelow(4); } }

/* ---- texts */
static char tb[1 << 22]; static size_t tn;
static void put(char const *f, ...) { va_list a; va_start(a, f); int k = vsnprintf(tb + tn, sizeof tb - tn, f, a); va_end(a); if (k < 0 || (tn += k) >= sizeof tb) die("harness: text too long"); }
static void hexs(void const *p, size_t n) { put("\""); for (size_t i = 0; i < n; i++) put("%02x", ((unsigned char const *)p)[i]); put("\""); }
static void sent(void) { vh_sent(tb, tn); }
static void recv_(void) { vh_recv(tb, tn); }

/* ---- what C lends to Rust */
struct lent { void *p; size_t n, sz; void (*d)(void *); int heap; };
static struct lent lent[1 << 20]; static size_t nlent;
static void *lend(void *p, size_t n, size_t sz, void (*d)(void *), int heap) { if (nlent == sizeof lent / sizeof *lent) die("harness: too much lent"); lent[nlent++] = (struct lent){ p, n, sz, d, heap }; return p; }
static void unlend(void) { while (nlent) { struct lent l = lent[--nlent]; if (l.d) for (size_t i = 0; i < l.n; i++) l.d((char *)l.p + i * l.sz); if (l.heap) free(l.p); } }
static int depth;

/* ---- text of any length */
static char *utf8(size_t *len, int nul) {
    static char const *const f[] = { "a", "Z9", " ", "\x7f", "\n", "\xc3\xa9", "\xe2\x88\x80", "\xf0\x9f\xa6\x80", "\x01", "hello" };
    char b[4096]; size_t n = 0, k = rlen();
    for (size_t i = 0; i < k; i++) { char const *s = f[rbelow(10)]; memcpy(b + n, s, strlen(s)); n += strlen(s); }
    char *p = malloc(n + nul ? n + nul : 1); memcpy(p, b, n); if (nul) p[n] = 0; *len = n; return p;
}
struct env { uint64_t magic; long rc; };
static long live_env;
static struct env *new_env(void) { struct env *e = malloc(sizeof *e); e->magic = 0xE11Full; e->rc = 1; live_env++; return e; }
static void use_env(void const *e) { if (((struct env const *)e)->magic != 0xE11Full) die("a callable made by C was called with another environment, or after its release"); }
static void env_release(void *v) { use_env(v); struct env *e = v; if (--e->rc == 0) { e->magic = 0; live_env--; free(e); } }
static void env_retain(void *v) { use_env(v); ((struct env *)v)->rc++; }
static void fail(char const *what) { printf("MISMATCH %s\n", what); fflush(stdout); exit(3); }
'''


class CGen:
    def __init__(self, prog, facts):
        self.p, self.facts = prog, facts
        self.types = prog.used_types()
        self.ix = {}
        self.out = []
        self.extra = []
        for t in self.types:
            self.id(t)

    def id(self, t):
        k = key(t)
        if k not in self.ix:
            self.ix[k] = len(self.ix)
            self.extra.append(t)
        return self.ix[k]

    def cname(self, t):
        g = t[0]
        if g == "op":
            # the fact is about `Op const *`
            d = self.facts["ty:*" + key(t)]["c"]
            return d.split(" const *")[0]
        if g == "vt":
            return t[1] + "VTable_t"
        if g == "opt":
            return self.cname(t[1])
        if g == "nt":
            return self.cname(self.p.inner(t))
        d = self.facts["ty:" + key(t)]["c"]
        assert d.endswith(" @"), (t, d)
        return d[:-2]

    def decl(self, t, v):
        return self.p.cdecl(t, v, self.cname)

    def w(self, s):
        self.out.append(s)

    def is_unit(self, t):
        return t[0] == "unit"

    # C statements; `o`/`v`: lvalue expressions of the type
    def gen(self, t, o):
        g = t[0]
        p = self.p
        i = self.id
        if g == "bool":
            return f"{o} = rbelow(2);"
        if g in ("f32", "f64"):
            return f"{{ uint{32 if g == 'f32' else 64}_t b_ = rbits(); memcpy(&{o}, &b_, sizeof b_); }}"
        if g in SIZE:
            return f"{o} = ({C_PRIM[g]})rbits();"
        if g in ("cptr", "mptr"):
            return f"{{ void *q_ = (void *)(uintptr_t)rbits(); memcpy(&{o}, &q_, sizeof q_); }}"
        if g in ("nn", "nnref", "nnmut", "nnown", "craw"):
            return f"{{ void *q_ = (void *)(uintptr_t)((rbits() & ~63ull) | 64); memcpy(&{o}, &q_, sizeof q_); }}"
        if g in ("ref", "mut", "box"):
            x = t[1]
            if x[0] == "op":
                n = self.opfn(x)
                if g == "box":
                    return f"{o} = mk_{n}();"
                return f"{{ {self.decl(x, '*q_')} = mk_{n}(); lend(q_, 1, 0, opfree_{i(x)}, 0); {o} = q_; }}"
            if g == "box":
                return f"{{ {self.decl(x, '*q_')} = malloc(sizeof *q_); gen_{i(x)}(q_); {o} = q_; }}"
            return f"{{ {self.decl(x, '*q_')} = malloc(sizeof *q_); gen_{i(x)}(q_); lend(q_, 1, sizeof *q_, free_{i(x)}, 1); {o} = q_; }}"
        if g == "opt":
            return f"if (rbelow(3) == 0) {{ memset(&{o}, rbelow(2) ? 0 : 0x5a, sizeof {o}); {self.none(t[1], o)} }} else {{ {self.gen(t[1], o)} }}"
        if g == "tag":
            return f"{o}._0 = rbelow(3) != 0; if ({o}._0) gen_{i(t[1])}(&{o}._1); else memset(&{o}._1, (int)rbelow(256), sizeof {o}._1);"
        if g == "sraw":
            return f"{{ {o}.ptr = (void *)(uintptr_t)((rbits() & ~63ull) | 64); {o}.len = rbits(); }}"
        if g in ("sref", "smut", "sbox", "vec"):
            x = t[1]
            e = i(x)
            s = f"{{ size_t n_ = rlen(); size_t c_ = n_{' + rbelow(2) * rbelow(5)' if g == 'vec' else ''}; {self.decl(x, '*q_')} = c_ ? malloc(c_ * sizeof *q_) : (void *)_Alignof({self.decl(x, '')}); "
            s += f"for (size_t i_ = 0; i_ < n_; i_++) gen_{e}(q_ + i_); {o}.ptr = q_; {o}.len = n_;"
            if g == "vec":
                s += f" {o}.cap = c_;"
            if g in ("sref", "smut"):
                s += f" if (n_) lend(q_, n_, sizeof *q_, free_{e}, 1);"
            return s + " }"
        if g == "string":
            return f"{{ size_t n_; char *q_ = utf8(&n_, 0); if (!n_) {{ free(q_); q_ = (char *)1; }} {o}.ptr = (uint8_t *)q_; {o}.len = n_; {o}.cap = n_; }}"
        if g == "strbox":
            return f"{{ size_t n_; char *q_ = utf8(&n_, 0); if (!n_) {{ free(q_); q_ = (char *)1; }} {o}.ptr = (uint8_t *)q_; {o}.len = n_; }}"
        if g == "strref":
            return f"{{ size_t n_; char *q_ = utf8(&n_, 0); {o}.ptr = (uint8_t *)lend(q_, 0, 0, 0, 1); {o}.len = n_; }}"
        if g == "cref":
            return f"{{ size_t n_; char *q_ = utf8(&n_, 1); {o} = lend(q_, 0, 0, 0, 1); }}"
        if g == "cbox":
            return f"{{ size_t n_; {o} = utf8(&n_, 1); }}"
        if g == "arr":
            return f"for (size_t i_ = 0; i_ < {t[2]}; i_++) gen_{i(t[1])}(&{o}.idx[i_]);"
        if g in ("tup", "st"):
            return " ".join(f"gen_{i(x)}(&{o}.{n.replace('r#', '')});" for n, x in p.fields(t))
        if g == "nt":
            return f"gen_{i(p.inner(t))}(&{o});"
        if g == "en":
            vs = p.by_name[t[1]]["variants"]
            lits = ", ".join(self.ilit(v[3]) for v in vs)
            return f"{{ static uint64_t const v_[] = {{ {lits} }}; {o} = v_[rbelow({len(vs)})]; }}"
        if g == "fn":
            return f"{o} = cb_{i(t)};"
        if g == "clo":
            s = f"{{ struct env *e_ = new_env(); {o}.env_ptr = e_; {o}.call = cb_{i(t)};"
            if t[1] == "Box":
                s += f" {o}.free = env_release;"
            elif t[1] == "Arc":
                s += f" {o}.release = env_release; {o}.retain = env_retain;"
            else:
                s += " lend(e_, 1, 0, env_release, 0);"
            return s + " }"
        if g == "vp":
            it = p.by_name[t[1]]
            s = f"{{ {o}.ptr = (Erased_t *)new_env(); {o}.vtable.release_vptr = vp_release;"
            if it.get("clone"):
                s += f" {o}.vtable.retain_vptr = vp_retain;"
            for m in it["methods"]:
                s += f" {o}.vtable.{m['name']} = cb_{i(t)}_{m['name']};"
            return s + " }"
        raise KeyError(g)

    def ilit(self, v):
        return f"(uint64_t){v & (2**64 - 1)}ull"

    def none(self, t, o):
        f = self.p.fields(t) if t[0] != "arr" else None
        if t[0] == "vp" or (t[0] == "nt" and self.base(t)[0] == "vp"):
            return f"{o}.ptr = NULL;"
        if f:
            # the documented null: of the pointer
            return f"{o}.{f[0][0]} = NULL;"
        return f"{o} = NULL;"

    def base(self, t):
        while t[0] in ("nt", "opt"):
            t = self.p.inner(t) if t[0] == "nt" else t[1]
        return t

    def is_none(self, t, v):
        f = self.p.fields(t) if t[0] != "arr" else None
        return f"!{v}.{f[0][0]}" if f else f"!{v}"

    def ser(self, t, v):
        g = t[0]
        p, i = self.p, self.id
        if g == "bool":
            return f'{{ unsigned char b_; memcpy(&b_, &{v}, 1); put(b_ == 1 ? "T" : b_ ? "invalid-bool" : "F"); }}'
        if g == "f32":
            return f'{{ uint32_t b_; memcpy(&b_, &{v}, 4); put("f%x", b_); }}'
        if g == "f64":
            return f'{{ uint64_t b_; memcpy(&b_, &{v}, 8); put("d%llx", (unsigned long long)b_); }}'
        if g == "cchar":
            return f'put("%u", (unsigned)(unsigned char){v});'
        if g in SIZE:
            return f'put("%lld", (long long){v});' if g[0] == "i" else f'put("%llu", (unsigned long long){v});'
        if g in ("cptr", "mptr", "nn", "nnref", "nnmut", "nnown", "craw"):
            return f'put("p%llx", (unsigned long long)(uintptr_t){v});'
        if g in ("ref", "mut", "box"):
            if t[1][0] == "op":
                return f'put("&o%llx", (unsigned long long)(uintptr_t){v});'
            return f'put("&"); ser_{i(t[1])}({v});'
        if g == "opt":
            return f'if ({self.is_none(t[1], v)}) put("N"); else {{ {self.ser(t[1], v)} }}'
        if g == "tag":
            return f'{{ unsigned char b_; memcpy(&b_, &{v}._0, 1); if (b_ == 1) {{ put("S("); ser_{i(t[1])}(&{v}._1); put(")"); }} else put(b_ ? "invalid-tag" : "-"); }}'
        if g == "sraw":
            return f'put("r%llx:%llu", (unsigned long long)(uintptr_t){v}.ptr, (unsigned long long){v}.len);'
        if g in ("sref", "smut", "sbox", "vec"):
            s = f'put("["); for (size_t i_ = 0; i_ < {v}.len; i_++) {{ ser_{i(t[1])}({v}.ptr + i_); put(","); }} put("]");'
            if g == "vec":
                s += f' if ({v}.cap < {v}.len) put("cap<len");'
            return s
        if g in ("string", "strbox", "strref"):
            return f"hexs({v}.ptr, {v}.len);"
        if g in ("cref", "cbox"):
            return f"hexs({v}, strlen((char const *){v}));"
        if g == "arr":
            return f'put("["); for (size_t i_ = 0; i_ < {t[2]}; i_++) {{ ser_{i(t[1])}(&{v}.idx[i_]); put(","); }} put("]");'
        if g in ("tup", "st"):
            return 'put("{"); ' + " ".join(f"ser_{i(x)}(&{v}.{n.replace('r#', '')}); put(\",\");" for n, x in p.fields(t)) + ' put("}");'
        if g == "nt":
            return f"ser_{i(p.inner(t))}(&{v});"
        if g == "en":
            signed = p.by_name[t[1]]["repr"][0] in "iC"
            return f'put("%lld", (long long){v});' if signed else f'put("%llu", (unsigned long long){v});'
        if g in ("fn", "clo", "vp"):
            return 'put("#");'
        raise KeyError(g)

    def free(self, t, v):
        g = t[0]
        p, i = self.p, self.id
        if g == "box":
            if t[1][0] == "op":
                return f"rm_{self.opfn(t[1])}({v});"
            return f"free_{i(t[1])}({v}); free({v});"
        if g == "opt":
            return f"if (!({self.is_none(t[1], v)})) {{ {self.free(t[1], v)} }}"
        if g == "tag":
            return f"if ({v}._0) free_{i(t[1])}(&{v}._1);"
        if g in ("sbox", "vec"):
            n = "len" if g == "sbox" else "cap"
            return f"for (size_t i_ = 0; i_ < {v}.len; i_++) free_{i(t[1])}({v}.ptr + i_); if ({v}.{n}) free({v}.ptr);"
        if g == "string":
            return f"if ({v}.cap) free({v}.ptr);"
        if g == "strbox":
            return f"if ({v}.len) free({v}.ptr);"
        if g == "cbox":
            return f"vh_drop_cstr((char *){v});"
        if g == "arr":
            return f"for (size_t i_ = 0; i_ < {t[2]}; i_++) free_{i(t[1])}(&{v}.idx[i_]);"
        if g in ("tup", "st"):
            return " ".join(f"free_{i(x)}(&{v}.{n.replace('r#', '')});" for n, x in p.fields(t))
        if g == "nt":
            return f"free_{i(p.inner(t))}(&{v});"
        if g == "clo" and t[1] in ("Box", "Arc"):
            return f"{v}.{'free' if t[1] == 'Box' else 'release'}({v}.env_ptr);"
        if g == "vp":
            return f"{v}.vtable.release_vptr({v}.ptr);"
        return ""

    def call(self, callee, pre, ret, args, label):
        """A call by C of a callable made by Rust."""
        i = self.id
        s = "{ "
        for k, x in enumerate(args):
            s += f"{self.decl(x, f'x{k}_')}; gen_{i(x)}(&x{k}_); "
        s += f'tn = 0; put("{label}("); ' + "".join(f'ser_{i(x)}(&x{k}_); put(","); ' for k, x in enumerate(args)) + ("sent(); " if label == "cb" else "sent(); ")
        a = ", ".join(pre + [f"x{k}_" for k in range(len(args))])
        if self.is_unit(ret):
            s += f'{callee}({a}); tn = 0; put("=_"); recv_(); '
        else:
            s += f'{self.decl(ret, "y_")} = {callee}({a}); tn = 0; put("="); ser_{i(ret)}(&y_); recv_(); ex_{i(ret)}(&y_); free_{i(ret)}(&y_); '
        return s + "}"

    def ex(self, t, v):
        g = t[0]
        p, i = self.p, self.id
        if g in ("mut", "box"):
            return f"ex_{i(t[1])}({v});" if t[1][0] != "op" else ""
        if g == "opt":
            return f"if (!({self.is_none(t[1], v)})) {{ {self.ex(t[1], v)} }}"
        if g == "tag":
            return f"if ({v}._0) ex_{i(t[1])}(&{v}._1);"
        if g in ("sbox", "vec"):
            return f"for (size_t i_ = 0; i_ < {v}.len; i_++) ex_{i(t[1])}({v}.ptr + i_);"
        if g == "arr":
            return f"for (size_t i_ = 0; i_ < {t[2]}; i_++) ex_{i(t[1])}(&{v}.idx[i_]);"
        if g in ("tup", "st"):
            return " ".join(f"ex_{i(x)}(&{v}.{n.replace('r#', '')});" for n, x in p.fields(t))
        if g == "nt":
            return f"ex_{i(p.inner(t))}(&{v});"
        if g == "fn":
            return f"for (int k_ = 0; k_ < 2; k_++) {self.call(v, [], t[2], t[3], 'cb')}"
        if g == "clo":
            s = ""
            if t[1] == "Arc":
                s += f"if ({v}.retain) {{ {v}.retain({v}.env_ptr); {v}.release({v}.env_ptr); }} "
            return s + f"for (int k_ = 0; k_ < 2; k_++) {self.call(v + '.call', [v + '.env_ptr'], t[2], t[3], 'cb')}"
        if g == "vp":
            it = p.by_name[t[1]]
            s = ""
            if it.get("clone"):
                s += f"{{ Erased_t *c_ = {v}.vtable.retain_vptr({v}.ptr); {v}.vtable.release_vptr({v}.ptr); {v}.ptr = c_; }} "
            for m in it["methods"]:
                s += self.call(f"{v}.vtable.{m['name']}", [f"{v}.ptr"], m["ret"], [a[1] for a in m["args"]], f"{t[1]}.{m['name']}") + " "
            return s
        return ""

    def callee(self, name, pre, ret, args, label):
        """A callable made by C."""
        i = self.id
        ps = pre + [self.decl(x, f"x{k}_") for k, x in enumerate(args)]
        head = self.decl(ret, f"{name}({', '.join(ps) or 'void'})")
        env = "use_env(env_); " if pre else ""
        b = f'{{ {env}tn = 0; put("{label}("); ' + "".join(f'ser_{i(x)}(&x{k}_); put(","); ' for k, x in enumerate(args)) + 'recv_(); '
        b += "".join(f"if (depth < 3) {{ depth++; ex_{i(x)}(&x{k}_); depth--; }} free_{i(x)}(&x{k}_); " for k, x in enumerate(args))
        if self.is_unit(ret):
            b += 'tn = 0; put("=_"); sent(); }'
        else:
            b += f'{self.decl(ret, "y_")}; gen_{i(ret)}(&y_); tn = 0; put("="); ser_{i(ret)}(&y_); sent(); return y_; }}'
        return f"static {head} {b}"

    def opfn(self, t):
        return f"op{self.id(t)}"

    def functions(self):
        return [i for i in self.p.items if i["kind"] == "fn"]

    def driver(self):
        p, i = self.p, self.id
        # `used_types` lists all needed types, but the synthetic ones (none) and inner types of newtypes
        ts = [t for t in self.types if t[0] not in ("unit", "void", "ph", "erased")]
        protos, bodies = [], []
        vps = False
        for t in ts:
            n = i(t)
            if t[0] == "op":
                protos.append(f"extern {self.decl(t, f'*mk_{self.opfn(t)}(void)')}; extern void rm_{self.opfn(t)}({self.decl(t, '*')}); static void opfree_{n}(void *);")
                bodies.append(f"static void opfree_{n}(void *p) {{ rm_{self.opfn(t)}(p); }}")
                continue
            if t[0] == "out":
                continue
            vps |= t[0] == "vp"
            d = self.decl(t, "*o")
            c = self.decl(t, "*v")
            protos.append(f"static void gen_{n}({d}); static void ser_{n}({self.decl(t, 'const *v')}); static void free_{n}(void *); static void ex_{n}({c});")
            if t[0] == "fn":
                bodies.append(self.callee(f"cb_{n}", [], t[2], t[3], "cb"))
            if t[0] == "clo":
                bodies.append(self.callee(f"cb_{n}", ["void *env_"], t[2], t[3], "cb"))
            if t[0] == "vp":
                for m in p.by_name[t[1]]["methods"]:
                    bodies.append(self.callee(f"cb_{n}_{m['name']}", [f"Erased_t {'' if m['mut'] else 'const '}*env_"], m["ret"], [a[1] for a in m["args"]], f"{t[1]}.{m['name']}"))
            bodies.append(f"static void gen_{n}({d}) {{ {self.gen(t, '(*o)')} }}")
            bodies.append(f"static void ser_{n}({self.decl(t, 'const *v')}) {{ {self.ser(t, '(*v)')} }}")
            bodies.append(f"static void free_{n}(void *w) {{ {c} = w; (void)v; {self.free(t, '(*v)')} }}")
            bodies.append(f"static void ex_{n}({c}) {{ (void)v; if (depth >= 3) return; depth++; {self.ex(t, '(*v)')} depth--; }}")
        if vps:
            bodies.insert(0, "static void vp_release(Erased_t *p) { env_release(p); }\nstatic Erased_t *vp_retain(Erased_t const *p) { env_retain((void *)p); return (Erased_t *)p; }")
        fns = []
        for f in self.functions():
            exp = p.export_name(f)
            s = f"static void call_{len(fns)}(void) {{\n"
            for k, (an, t, *_) in enumerate(f["args"]):
                if t[0] == "out":
                    s += f"    {self.decl(t[1], f'a{k}')}; memset(&a{k}, 0xAA, sizeof a{k});\n"
                elif self.inout(t):
                    s += f"    {self.decl(t[1], f'a{k}')}; gen_{i(t[1])}(&a{k});\n"
                else:
                    s += f"    {self.decl(t, f'a{k}')}; gen_{i(t)}(&a{k});\n"
            s += f'    tn = 0; put("{exp}(");\n'
            for k, (an, t, *_) in enumerate(f["args"]):
                if t[0] == "out":
                    continue
                s += f'    {"put(%s&%s); ser_%d(&a%d);" % (chr(34), chr(34), i(t[1]), k) if self.inout(t) else f"ser_{i(t)}(&a{k});"} put(",");\n'
            s += "    sent();\n"
            args = ", ".join(("&" if self.inout(t) or t[0] == "out" else "") + f"a{k}" for k, (an, t, *_) in enumerate(f["args"]))
            if self.is_unit(f["ret"]):
                s += f'    {exp}({args});\n    tn = 0; put("{exp}=_");\n'
            else:
                s += f'    {self.decl(f["ret"], "r")} = {exp}({args});\n    tn = 0; put("{exp}="); ser_{i(f["ret"])}(&r);\n'
            after = "" if self.is_unit(f["ret"]) else f"    ex_{i(f['ret'])}(&r); free_{i(f['ret'])}(&r);\n"
            for k, (an, t, *_) in enumerate(f["args"]):
                if t[0] == "out" or self.inout(t):
                    s += f'    put(";{"" if t[0] == "out" else "&"}"); ser_{i(t[1])}(&a{k});\n'
                    after += f"    ex_{i(t[1])}(&a{k}); free_{i(t[1])}(&a{k});\n"
            s += "    recv_();\n" + after + "}\n"
            fns.append((exp, s))
        o = [PRELUDE.replace("#include <stdio.h>", "#include <stdio.h>\n#include <unistd.h>"), *protos, *bodies, *(s for _, s in fns)]
        o.append("static struct { char const *n; void (*f)(void); } const fns[] = { " + " ".join(f'{{ "{n}", call_{k} }},' for k, (n, _) in enumerate(fns)) + " { 0, 0 } };")
        o.append(r'''
int main(int argc, char **argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; int iters = argc > 2 ? atoi(argv[2]) : 20;
    char const *only = argc > 3 ? argv[3] : 0; unsigned long calls = 0;
    setvbuf(stdout, malloc(4096), _IOFBF, 4096);
    for (int it = 0; it < iters; it++) for (int k = 0; fns[k].n; k++) {
        if (only && strcmp(only, fns[k].n)) continue;
        st = seed ^ (uint64_t)it * 1000003 ^ (uint64_t)k << 40; rnext(); vh_seed(rnext()); depth = 0;
        long l0 = live;
        fns[k].f(); calls++;
        vh_reset(); unlend();
        if (vh_end()) { printf("CALL %s iteration %d\n", fns[k].n, it); fflush(stdout); return 3; }
        if (live_env) { printf("MISMATCH %ld environments made by C are still alive (negative: released too often)\nCALL %s iteration %d\n", live_env, fns[k].n, it); fflush(stdout); return 3; }
        if (it > 1 && live != l0) { printf("MISMATCH %ld heap blocks leaked (negative: freed too many)\nCALL %s iteration %d\n", live - l0, fns[k].n, it); fflush(stdout); return 3; }
    }
    printf("DONE %lu calls %llu crossings\n", calls, (unsigned long long)vh_crossings()); fflush(stdout); return 0;
}
''')
        return "\n".join(o)

    def inout(self, t):
        return t[0] == "mut" and t[1][0] != "op"

    def rust_extra(self):
        """Rust functions the driver needs: constructors of opaque types."""
        s = "use progrt::Mk as _;\n#[no_mangle] pub extern \"C\" fn vh_drop_cstr(p: char_p::Box) { drop(p) }\n"
        for t in self.types:
            if t[0] == "op":
                n = self.opfn(t)
                T = self.p.rs(t)
                s += f"#[no_mangle] pub extern \"C\" fn mk_{n}() -> *mut {T} {{ std::boxed::Box::into_raw(std::boxed::Box::new(<{T}>::mk())) }}\n"
                s += f"#[no_mangle] pub unsafe extern \"C\" fn rm_{n}(p: *mut {T}) {{ drop(std::boxed::Box::from_raw(p)) }}\n"
        return s
