"""S31: random programs, each compiled with safe integers and with an independent model, and run on generated inputs."""
from .common import *
from .ops import *

CMPSYM = ['<', '<=', '>', '>=', '==', '!=']


class Gen:
    """one program: variables of several types, two vectors, built-in integers; a list of statements"""

    def __init__(self, r, k, pol, std='c++14'):
        self.r, self.k, self.pol, self.n, self.std = r, k, pol, 0, std
        self.types = []  # (C++ spelling in world W, lo, hi)
        nt = r.choice([2, 3, 3, 4])
        for _ in range(nt):
            if r.random() < .72:
                b = r.choice(MAIN8 + ['int', 'int', 'long', 'long long'])
                lo, hi = rng_of(BUILTIN[b][:2])
                self.types.append(('typename W::template t<%s>' % b, lo, hi))
            elif r.random() < .6:
                lo, hi = r.choice([(-10, 100), (-1, 1), (-1000, 70000), (-128, 127), (0, 50), (-5, 2**31), (-2**40, 2**40), (-100, 0), (-2**63, 5), (0, 2**63 - 1), (-300, 300)])
                self.types.append(('typename W::template sr<%s,%s>' % (lit(lo), lit(hi)), lo, hi))
            else:
                lo, hi = r.choice([(0, 100), (0, 255), (0, 65536), (0, 7), (0, 2**32), (0, 2**63 - 1), (0, 2**64 - 1), (0, 1000000)])
                self.types.append(('typename W::template ur<%dULL,%dULL>' % (lo, hi), lo, hi))
        self.vars = [('x%d' % i, r.randrange(nt)) for i in range(r.choice([3, 4, 5]))]
        self.V = r.randrange(nt)  # element type of the containers
        self.bi = [('i0', 'int'), ('i1', r.choice(MAIN8))]
        self.stmts = []

    def uid(self):
        self.n += 1
        return 'q%d' % self.n

    def tn(self, i):
        return 'T%d' % i

    def var(self, ty=None):
        c = [v for v, t in self.vars if ty is None or t == ty]
        return self.r.choice(c) if c else 'T%d(%s)' % (ty, self.r.choice(self.vars)[0])

    def lval(self, ty=None):
        c = [v for v, t in self.vars if ty is None or t == ty]
        if ty == self.V and (not c or self.r.random() < .4):
            return self.r.choice(['v[%d]' % self.r.randrange(4), 'w[%d]' % self.r.randrange(4), 'v.back()', 'w.front()'])
        return self.r.choice(c) if c else None

    def literal(self):
        r = self.r
        k = r.random()
        if k < .6:
            v = r.choice([0, 1, 1, 2, 3, 5, 7, 10, -1, -2, 100])
            return str(v) if v >= 0 else '(%d)' % v
        v = abs(rand_value(r)) % 2**63
        if v < 2**31:
            return str(v) + r.choice(['', '', 'u', 'L'])
        return str(v) + 'LL'

    def builtin(self):
        return self.r.choice([b for b, _ in self.bi] + [self.literal()] * 2)

    def leaf(self):
        k = self.r.random()
        if k < .7:
            return self.var()
        if k < .85:
            return self.r.choice(['v[%d]', 'w[%d]']) % self.r.randrange(4)
        return 'T%d(%s)' % (self.r.randrange(len(self.types)), self.var())

    def ex(self, d=2):
        """an expression with at least one safe operand"""
        r = self.r
        if d == 0 or r.random() < .12:
            return self.leaf()
        k = r.random()
        if k < .66:
            op = r.choice(['+', '+', '-', '-', '*', '*', '/', '%'])
            a, b = self.ex(d - 1), self.ex(d - 1) if r.random() < .6 else self.builtin()
            if r.random() < .3:
                a, b = b, a
            return '(%s %s %s)' % (a, op, b)
        if k < .74:
            op = r.choice(['|', '&', '^'])
            return 'V(%s %s %s)' % (self.leaf(), op, self.leaf() if r.random() < .5 else self.builtin())
        if k < .80:
            return 'V(%s %s %s)' % (self.leaf(), r.choice(['<<', '>>']), r.choice([str(r.randrange(9)), self.leaf(), 'i0']))
        if k < .86:
            return '(-%s)' % self.ex(d - 1)
        if k < .88:
            return 'V(~%s)' % self.leaf()
        if k < .91:
            return '(%s ? V(%s) : V(%s))' % (self.cond(1), self.ex(d - 1), self.leaf())
        if k < .94:
            return 'std::%s(V(%s), V(%s))' % (r.choice(['min', 'max']), self.ex(d - 1), self.leaf())
        if k < .96:
            return '+' + self.leaf()
        return 'static_cast<T%d>(%s)' % (r.randrange(len(self.types)), self.ex(d - 1))

    def cond(self, d=1):
        r = self.r
        k = r.random()
        if d and k < .15:
            return '(%s && %s)' % (self.cond(0), self.cond(0))
        if d and k < .3:
            return '(%s || %s)' % (self.cond(0), self.cond(0))
        if k < .36:
            return '!(%s)' % self.cond(0)
        a, b = self.ex(1), self.leaf() if r.random() < .5 else self.builtin()
        if r.random() < .3:
            a, b = b, a
        return '(%s %s %s)' % (a, r.choice(CMPSYM), b)

    # ---- statements
    def block(self, d):
        return '{ %s }' % ' '.join(self.simple(d) + ';' for _ in range(self.r.choice([1, 1, 2])))

    def simple(self, d=1):
        """an update of one variable"""
        r = self.r
        t = r.randrange(len(self.types))
        x = self.lval(t) or r.choice(self.vars)[0]
        k = r.random()
        if k < .3:
            return '%s = %s' % (x, self.ex(2))
        if k < .6:
            return '%s %s= %s' % (x, r.choice(['+', '-', '*', '/', '%', '+', '-', '&', '|', '^', '<<', '>>'][:7 + 5 * (r.random() < .4)]), r.choice([self.leaf(), self.builtin(), self.ex(1)]) if r.random() < .7 else '2')
        if k < .75:
            return r.choice(['++%s', '%s++', '--%s', '%s--']) % x
        if k < .8:
            return '%s = %s = %s' % (x, self.lval() or x, self.ex(1))
        if k < .86:
            return 'i0 = %s' % r.choice([self.leaf(), self.ex(1)])
        if k < .9:
            return 'i1 %s= %s' % (r.choice(['+', '-', '*']), self.leaf())
        y = self.lval(self.V)
        return 'std::swap(%s, %s)' % (y, self.lval(self.V)) if y else '%s = %s' % (x, self.leaf())

    def stmt(self):
        r, q = self.r, self.uid()
        V, t = 'V', 'T%d' % r.randrange(len(self.types))
        E, C, S = self.ex, self.cond, self.simple
        x = self.lval(self.V) or 'v[0]'
        kinds = [
            lambda: S(), lambda: S(), lambda: S(), lambda: S(), lambda: S(),
            lambda: 'if (%s) %s else %s' % (C(), self.block(1), self.block(1)),
            lambda: 'while (tr.go() && %s) { %s; }' % (C(), S()),
            lambda: 'for (%s %s = 0; %s < %d && tr.go(); %s) { %s; %s += %s; }' % (t, q, q, r.choice([3, 5, 10]), r.choice(['++%s' % q, '%s++' % q, '%s += 2' % q]), S(), x, q),
            lambda: 'for (auto &%s : v) %s %s %s' % (q, q, r.choice(['+=', '-=', '*=', '=']), E(1)),
            lambda: 'do { %s; } while (tr.go() && %s)' % (S(), C()),
            lambda: 'try { %s; %s; } catch (const std::exception &) { %s; }' % (S(), S(), r.choice(['tr.text("caught")', S(), 'tr.text("caught"); throw'])),
            lambda: 'tr.put(%s)' % E(3),
            lambda: 'tr.put(static_cast<int>(%s))' % C(1),
            lambda: 'std::ostringstream o; o << %s << \' \' << %s; tr.text(o.str())' % ('+(%s)' % E(2), self.var()),
            lambda: 'const %s %s = %s; tr.put(%s); tr.put(%s * 2)' % (t, q, E(2), q, q),
            lambda: 'auto %s = %s; tr.put(%s)' % (q, E(2), q),
            lambda: '%s &%s = %s; %s %s %s; %s' % (V, q, x, q, r.choice(['+=', '-=', '=', '*=']), E(1), S()),
            lambda: '%s *%s = &%s; *%s = %s; (*%s)++' % (V, q, x, q, E(1), q),
            lambda: 'auto %s = [&](const V &a, V b) { b += a; %s; return a * b; }; %s = %s(%s, %s)' % (q, S(), x, q, x, 'V(%s)' % E(1)),
            lambda: 'std::function<V(V, V)> %s = [=](V a, V b) { return V(a %s b); }; tr.put(%s(V(%s), V(%s)))' % (q, r.choice('+-*/%'), q, E(1), self.leaf()),
            lambda: 'tr.put(f_%s(%s))' % (r.choice(['long', 'int', 'uint', 'short', 'uchar']), E(1)),
            lambda: 'tr.put(ident_<%s>(%s)); tr.put(ident_v(%s))' % (t, E(1), self.var()),
            lambda: 'inc_<V>(%s, V(%s))' % (x, E(1)),
            lambda: 'set_<V>(&%s, V(%s))' % (x, E(1)),
            # algorithms of users
            lambda: '%s = %s<V>(V(%s), V(%s)); tr.put(%s)' % (x, r.choice(['gcd_', 'gcdr_', 'mid_', 'avg_']), E(1), self.leaf(), x),
            lambda: 'tr.put(pow_<%s>(%s(%s), %d))' % (t, t, self.leaf(), r.randrange(9)),
            lambda: 'tr.put(%s<%s>(%s(%s)))' % (r.choice(['fact_', 'factr_', 'isqrt_', 'reverse_', 'popcount_', 'prime_', 'collatz_']), t, t, E(1)),
            lambda: 'tr.put(fib_<%s>(%d))' % (t, r.choice([5, 12, 13, 14, 25, 47, 50, 93, 94])),
            lambda: 'tr.put(digits_<%s>(%s(%s), %d)); tr.text(base_<%s>(%s(%s), %d))' % (t, t, self.leaf(), r.choice([2, 7, 10, 16]), t, t, self.leaf(), r.choice([2, 10])),
            lambda: 'tr.put(horner_<V>(v.begin(), v.end(), V(%s))); tr.put(hash_<V>(w.begin(), w.end()))' % self.leaf(),
            lambda: 'tr.put(binom_<%s>(%d, %d))' % (t, r.choice([4, 9, 11, 20, 36]), r.randrange(5)),
            lambda: 'tr.put(clamp_<V>(V(%s), v[0], v[1])); tr.put(satadd_<%s>(%s(%s), %s))' % (self.leaf(), t, t, self.leaf(), self.leaf()),
            lambda: 'tr.put(mulmod_<V>(V(%s), V(%s), V(%s)))' % (self.leaf(), self.leaf(), r.choice([self.leaf(), '97'])),
            lambda: 'bubble_(v); tr.all(v); tr.put(search_(v, V(%s)))' % self.leaf(),
            lambda: 'Point<V> a(v[0], v[1]), b(w[0], w[1]); tr.put(a.dot(b)); auto c = (a + b) * V(%s); tr.put(c.x); tr.put(c.y); tr.put(a < b); tr.put(a == c)' % self.leaf(),
            lambda: 'Frac<V> a(v[0], v[1]), b(w[0], w[1]); auto c = %s; tr.put(c.n); tr.put(c.d); tr.put(a < b)' % r.choice(['a + b', 'a * b']),
            lambda: 'Account<V> a{V(%s)}; a.deposit(V(%s)); try { a.withdraw(V(%s)); } catch (const std::exception &) { tr.text("refused"); } tr.put(a.balance); tr.all(a.log)' % (self.leaf(), self.leaf(), E(1)),
            # the standard library
            lambda: 'std::sort(v.begin(), v.end()%s); tr.all(v)' % r.choice(['', ', std::greater<V>()', ', [](const V &a, const V &b) { return a < b; }']),
            lambda: '%s = std::accumulate(v.begin(), v.end(), V(%s)%s)' % (x, r.choice(['0', '1', self.leaf()]), r.choice(['', ', std::multiplies<V>()', ', [](const V &a, const V &b) { return V(a - b); }', ', std::plus<>()'])),
            lambda: 'tr.put(std::inner_product(v.begin(), v.end(), w.begin(), V(%s)))' % r.choice(['0', self.leaf()]),
            lambda: 'std::partial_sum(v.begin(), v.end(), w.begin()); tr.all(w)',
            lambda: 'std::adjacent_difference(v.begin(), v.end(), w.begin()); tr.all(w)',
            lambda: 'std::iota(w.begin(), w.end(), V(%s))' % self.leaf(),
            lambda: 'std::transform(v.begin(), v.end(), w.begin(), w.begin(), std::%s<%s>())' % (r.choice(['plus', 'minus', 'multiplies', 'divides', 'modulus', 'bit_and', 'bit_or', 'bit_xor']), 'V'),
            lambda: 'std::transform(v.begin(), v.end(), v.begin(), %s)' % r.choice(['std::negate<V>()', '[&](const V &a) { return V(a + %s); }' % self.builtin(), '[](V a) { return ++a; }', '[](const V &a) { return a > 0 ? a : V(-a); }']),
            lambda: 'tr.put(std::count(v.begin(), v.end(), %s)); tr.put(std::count_if(v.begin(), v.end(), [&](const V &a) { return a %s %s; }))' % (r.choice(['V(%s)' % self.leaf(), '0', '1']), r.choice(CMPSYM), self.leaf()),
            lambda: 'tr.put(std::find(v.begin(), v.end(), V(%s)) - v.begin()); tr.put(std::find_if(w.begin(), w.end(), [](const V &a) { return a %% 2 == 0; }) - w.begin())' % self.leaf(),
            lambda: 'auto m = std::minmax_element(v.begin(), v.end()); tr.put(*m.first); tr.put(*m.second); tr.put(m.first - v.begin()); tr.put(*m.second - *m.first)',
            lambda: 'std::sort(v.begin(), v.end()); tr.put(std::lower_bound(v.begin(), v.end(), V(%s)) - v.begin()); tr.put(std::binary_search(v.begin(), v.end(), v[1])); tr.put(std::unique(v.begin(), v.end()) - v.begin())' % self.leaf(),
            lambda: 'std::rotate(v.begin(), v.begin() + %d, v.end()); std::reverse(w.begin(), w.end()); std::next_permutation(w.begin(), w.end()); tr.all(w)' % r.randrange(4),
            lambda: 'std::replace(v.begin(), v.end(), v[%d], V(%s)); std::fill(w.begin() + 2, w.end(), V(%s)); tr.all(v)' % (r.randrange(4), self.leaf(), self.leaf()),
            lambda: 'tr.put(v == w); tr.put(v < w); tr.put(std::equal(v.begin(), v.end(), w.begin())); tr.put(std::lexicographical_compare(w.begin(), w.end(), v.begin(), v.end()))',
            lambda: 'std::set<V> s(v.begin(), v.end()); s.insert(V(%s)); tr.all(s); tr.put(s.count(w[0]))' % self.leaf(),
            lambda: 'std::map<V, V> m; m.insert(std::make_pair(v[0], w[0])); m.emplace(v[1], V(%s)); m.insert({w[1], w[2]}); for (auto &e : m) { e.second += e.first; tr.put(e.first); tr.put(e.second); } m.at(v[0]) %s w[1]; tr.put(m.at(v[0]))' % (self.leaf(), r.choice(['-=', '*=', '='])),
            lambda: 'std::priority_queue<V> p(v.begin(), v.end()); p.push(V(%s)); while (!p.empty()) { tr.put(p.top()); p.pop(); }' % E(1),
            lambda: 'std::stack<V> s; s.push(v[0]); s.push(V(%s)); V a = s.top(); s.pop(); V b = s.top(); s.pop(); s.push(b %s a); tr.put(s.top())' % (self.leaf(), r.choice('+-*/%')),
            lambda: 'std::list<V> a(v.begin(), v.end()), b(w.begin(), w.end()); a.sort(); b.sort(); a.merge(b); a.unique(); a.remove(v[2]); tr.all(a)',
            lambda: 'std::deque<V> d(v.begin(), v.end()); d.push_front(V(%s)); d.pop_back(); d.push_back(d.front() + d.back()); tr.all(d)' % self.leaf(),
            lambda: 'std::array<V, 3> a = {{v[0], V(%s), w[0]}}; a[1] %s a[2]; tr.all(a); tr.put(std::get<0>(a) + std::get<1>(a))' % (self.leaf(), r.choice(['+=', '*=', '-='])),
            lambda: 'auto p = std::make_pair(v[0], %s); auto u = std::make_tuple(p.first, w[0], 3); tr.put(std::get<0>(u) + std::get<1>(u)); std::get<1>(u) -= std::get<2>(u); tr.put(std::get<1>(u)); tr.put(std::make_pair(v[0], v[1]) < std::make_pair(w[0], w[1])); p.second++; tr.put(p.second)' % self.var(),
            lambda: 'std::unique_ptr<V> p(new V(%s)); *p %s w[1]; V a = std::move(*p); tr.put(a); auto s = std::make_shared<V>(a); ++*s; tr.put(*s)' % (self.leaf(), r.choice(['+=', '-=', '*='])),
            lambda: 'V a = v[0]; V b(std::move(a)); a = b; b = std::move(w[0]); w[0] = a; std::tie(a, b) = std::make_tuple(b, a); tr.put(a); tr.put(b)',
            lambda: 'size_t n = 0; V k = %s; if (k >= 0 && k < 4) { n = k; tr.put(v[k]); tr.put(v.at(k)); } tr.put(n)' % self.leaf(),
            lambda: 'V k = %s; if (!k) tr.text("zero"); else tr.text("other"); bool b = k != 0 && k < 10; tr.put(b)' % r.choice(['v[0] & 1', 'v[1] %s w[1]' % r.choice(['%', '/']), 'V(%s)' % C()]),
            lambda: 'v.push_back(V(%s)); tr.put(v.back()); v.pop_back(); std::vector<V> c(3, v[0]); c.insert(c.begin(), v[1]); c.erase(c.begin() + 1); c = w; c.swap(v); tr.all(c); c.swap(v)' % E(1),
            lambda: 'tr.put(std::numeric_limits<%s>::max()); tr.put(std::numeric_limits<%s>::min()); tr.put(std::numeric_limits<%s>::max() - %s)' % (t, t, t, self.leaf()),
            lambda: 'tr.put(std::max({v[0], v[1], V(%s)})); tr.put(std::min({w[0], w[1], w[2]}))' % self.leaf(),
            lambda: 'V k = %s; if (k >= 0 && k < 9) { std::vector<int> n(k); n.resize(k + 1); std::string s(k, 65); tr.put(n.size()); tr.text(s); }' % self.leaf(),
            lambda: 'tr.put(std::min<V>(%s, 7)); tr.put(std::max<V>(3, %s)); tr.put(overload_(%s)); tr.put(overload2_<V>("text")); tr.put(std::is_convertible<V, std::string>::value); tr.put(std::is_constructible<V, std::string>::value); tr.put(sizeof(V)); tr.put(std::is_trivially_copyable<V>::value); std::pair<V, V> p = {%s, w[0]}; p = {v[1], %s}; tr.put(p.first); tr.put(p.second)' % (self.leaf(), E(1), self.leaf(), self.leaf(), self.leaf()),
            lambda: 'Meters<V> a(v[0]), b(%s); tr.put((a + b).v); tr.put((a * w[0]).v); tr.put((w[1] * b).v); tr.put(a < b); a += b; tr.put(a.v)' % self.var(),
            lambda: 'std::ostringstream o; std::copy(v.begin(), v.end(), std::ostream_iterator<V>(o, ",")); std::string s = o.str(); tr.text(s)',
            lambda: '(%s %s= %s) %s= %s; ++(%s += %s); (%s = %s)++; V &r = (%s *= 2); --r; V &r1 = --r, &r2 = ++r1; r2 = 3; r1 -= 1; tr.put(&(%s -= 1) == &%s); tr.put(&--r == &++r2); int i = 1; (i += %s) *= 2; tr.put(i)' % (x, r.choice('+-*|'), self.leaf(), r.choice('+-*&'), self.leaf(), x, self.leaf(), x, E(1), x, x, x, self.leaf()),
            lambda: 'std::valarray<V> a(v.data(), 4), b(w.data(), 4); std::valarray<V> c = a %s b; tr.all(c); c = a %s V(%s); c += b; tr.all(c); tr.put(c.sum()); tr.put(c.max()); c = V(%s) %s c; c = -c; tr.all(c)' % (r.choice('+-*'), r.choice('+-*'), self.leaf(), self.leaf(), r.choice('+-*')),
            lambda: 'std::string s(8, 66); V k = %s; if (k >= 0 && k < 8) { s.insert(k, "x"); s[k] = 67; s.erase(k); tr.text(s); s.resize(k + 3, 68); tr.text(s.substr(k)); auto it = v.begin(); if (k < 4) { it = it + k; tr.put(*it); it -= k; std::advance(it, k); tr.put(*it); } }' % self.leaf(),
            lambda: 'std::vector<std::vector<V>> m(2, v); m[1] = w; m[0][1] += m[1][0]; m[1].at(2) = %s; for (auto &a : m) for (auto &b : a) b -= 1; tr.all(m[0]); tr.all(m[1])' % E(1),
            lambda: 'V a[3] = {v[0], V(%s), 3}; for (auto &b : a) b += w[0]; for (const V &b : {v[1], a[2]}) tr.put(b); struct S { V p; T0 q; } s = {v[2], %s}, s2{v[3], 1}; std::swap(s, s2); s.p = s2.q; tr.put(s.p); tr.put(s.q); tr.put(s2.p); static const V k{3}; V g = {2}; tr.put(k * g)' % (self.leaf(), self.var(0)),
            lambda: 'V (*f)(const V &, int) = [](const V &a, int n) { return n ? V(a * n) : a; }; tr.put(f(%s, 0)); tr.put(f(v[0], i0)); auto g = std::bind(std::plus<V>(), std::placeholders::_1, v[1]); tr.put(g(v[2])); std::vector<std::reference_wrapper<V>> z{v[0], w[0]}; for (V &a : z) a -= 1' % self.leaf(),
            lambda: 'V a = v[0]; V &&m = std::move(a); V b(0); b = std::move(m); w[1] = b++; v[2] = --b; tr.put(b); V c = 1, d = c; c = d = %s; tr.put(c); V e = c--; tr.put(e); tr.put(c); e = e; tr.put(++ ++e); tr.put(e); tr.put(-- --e); tr.put(e); auto &f = e = c; f = %s; tr.put(e); V h(w[2]); h = {h}; tr.put(h++ - d--)' % (self.leaf(), E(1)),
            lambda: 'std::istringstream s(%s); V a = v[0]; while (tr.go() && s >> a) { tr.put(a); w[0] = a; } tr.put(a); std::stringstream z; z << %s << " " << +w[1]; V b = 0, c = 0; z >> b; tr.put(b)' % (r.choice(['"1 2 3"', '"0 100 x"', '"-1 7"', '"99999999999999999999 1"', '"12"', '"300 70000"']), '+(%s)' % self.leaf()),
            lambda: 'auto g = [](V &a) -> decltype(auto) { return %s; }; auto &&r = g(%s); tr.put(r); r %s %s; tr.put(r)' % (r.choice(['++a', '--a', '(a = 2)', '(a += 1)', '(a -= 1)', '(a = T0(3))', 'a++', '(a *= 2)', '(a %= 5)', '(a |= 1)', '(a = a)']), x, r.choice(['=', '+=', '-=']), self.leaf()),
            lambda: 'std::atomic<V> a(v[0]); a = V(%s); tr.put(a.load()); tr.put(a.exchange(v[1])); tr.put(V(a) + 1)' % self.leaf(),
            lambda: 'std::multimap<V, int> m; for (int n = 0; n < 4; ++n) m.emplace(v[n], n); for (auto &e : m) { tr.put(e.first); tr.put(e.second); } tr.put(std::distance(m.begin(), m.lower_bound(V(%s)))); std::multiset<V, std::greater<V>> s(w.begin(), w.end()); tr.all(s); tr.put(s.erase(w[1]))' % self.leaf(),
            lambda: 'std::unordered_map<int, V> m; m.emplace(1, v[0]); m.at(1) += %s; tr.put(m.at(1)); std::unordered_set<int> u; u.insert(static_cast<int>(%s)); u.insert(3); tr.put(u.size())' % (self.leaf(), self.leaf()),
            lambda: 'std::nth_element(v.begin(), v.begin() + 1, v.end()); tr.put(v[1]); std::partial_sort(w.begin(), w.begin() + 2, w.end()); tr.put(w[0]); tr.put(w[1]); std::vector<V> z; std::set_union(v.begin(), v.begin() + 1, w.begin(), w.begin() + 2, std::back_inserter(z)); tr.all(z); std::stable_sort(v.begin(), v.end()); std::merge(v.begin(), v.end(), w.begin(), w.begin() + 2, std::back_inserter(z)); tr.all(z); tr.put(std::max_element(z.begin(), z.end()) - z.begin())',
            lambda: 'int i = 5; i += %s; tr.put(i); i = i * %s; tr.put(i); long l = %s; tr.put(l); unsigned char c = static_cast<unsigned char>(%s); tr.put(c)' % (self.leaf(), self.leaf(), E(1), self.leaf()),
        ]
        if not self.pol & 1 and re.search('t<(int|long|long long)>', self.types[self.V][0]):
            kinds += [
                lambda: 'boost::rational<V> a(v[0], v[1]), b(w[0], w[1]); tr.put(a.numerator()); tr.put(a.denominator()); tr.put(a < b); tr.put(a == b); auto c = %s; tr.put(c.numerator()); tr.put(c.denominator()); c %s V(%s); tr.put(c.numerator()); tr.put(c > a); tr.put(c == V(1)); tr.put(boost::rational_cast<int>(a)); tr.put(!c); ++c; std::ostringstream o; o << abs(c); tr.text(o.str())' % (r.choice(['a + b', 'a * b', 'a - b', 'a / b', '-a']), r.choice(['+=', '*=', '-=', '/=']), self.leaf()),
            ]
        if self.std != 'c++14':
            kinds += [
                lambda: 'std::optional<V> o = v[0]; tr.put(o == v[1]); tr.put(o < V(%s)); o = V(%s); *o %s w[0]; tr.put(o.value_or(v[1])); o = std::nullopt; tr.put(o < v[0]); o.emplace(3); tr.put(*o)' % (self.leaf(), E(1), r.choice(['+=', '*=', '-='])),
                lambda: 'std::variant<std::string, V> a = v[0]; tr.put(a.index()); a = "text"; a = V(%s); tr.put(std::get<V>(a)); std::visit([&](auto &z) { std::ostringstream o; o << z; tr.text(o.str()); }, a)' % self.leaf(),
                lambda: 'auto [p, q] = std::make_pair(v[0], V(%s)); p += q; tr.put(p); tr.put(std::clamp(q, w[0], w[0])); if (V k = %s; k > 2) tr.put(k - 2); tr.put(std::exchange(v[1], w[1]))' % (E(1), self.leaf()),
                lambda: 'tr.put(std::reduce(v.begin(), v.end(), V(0))); std::exclusive_scan(v.begin(), v.end(), w.begin(), V(%s)); tr.all(w); tr.put(std::transform_reduce(v.begin(), v.end(), w.begin(), V(0)))' % self.leaf(),
                lambda: 'std::any a = v[0]; tr.put(std::any_cast<V>(a)); auto sum = [](auto... a) { return (a + ...); }; tr.put(sum(v[0], %s, 1)); std::vector z{v[0], w[0]}; tr.all(z); std::pair pp(v[1], 2); tr.put(pp.first * pp.second)' % self.leaf(),
            ]
        if self.std == 'c++20':
            kinds += [
                lambda: 'std::ranges::sort(v); tr.all(v); tr.put(*std::ranges::max_element(w)); tr.put(std::ranges::count_if(v, [](const V &a) { return a > 2; })); for (auto a : w | std::views::transform([](const V &a) { return V(a * 2); }) | std::views::filter([](const V &a) { return a > 0; })) tr.put(a)',
                lambda: 'struct R { V a, b; bool operator==(const R &) const = default; std::strong_ordering operator<=>(const R &) const = default; } p{v[0], v[1]}, q{v[0], V(%s)}; tr.put(p < q); tr.put(p == q); tr.put(p >= q); std::span<V> z(v); for (auto &a : z) ++a; tr.put(std::ranges::lower_bound(w, v[0]) - w.begin()); std::erase_if(v, [](const V &) { return false; })' % self.leaf(),
            ]
        return r.choice(kinds)()

    def build(self, n):
        self.stmts = [self.stmt() for _ in range(n)]
        return self


def text_of(g, keep=None):
    """the class template of one program, its tables and its entry"""
    k, pol = g.k, g.pol
    L = ['template <class W> struct P%d { static void run(const i128 *in, Trace &tr) { (void)in;' % k]
    L += ['typedef %s T%d;' % (t, i) for i, (t, lo, hi) in enumerate(g.types)]
    L.append('typedef T%d V;' % g.V)
    n = 0
    for v, t in g.vars:
        L.append('T%d %s((%s)in[%d]);' % (t, v, wide(g.types[t]), n))
        n += 1
    for b, t in g.bi:
        L.append('%s %s = (%s)in[%d];' % (t, b, t, n))
        n += 1
    L.append('std::vector<V> v, w; ' + ' '.join('%s.push_back(V((%s)in[%d]));' % ('v' if i < 4 else 'w', wide(g.types[g.V]), n + i) for i in range(8)))
    n += 8
    L.append('auto dump = [&] { %s tr.put(i0); tr.put(i1); tr.all(v); tr.all(w); };' % ' '.join('tr.put(%s);' % v for v, t in g.vars))
    for i, s in enumerate(g.stmts):
        if keep is None or i in keep:
            L.append('/*@ %s */ ST(%d, %s)' % (s.replace('*/', '* /'), i, s))
    L.append('} };')
    td = ['{"%s",%s,%s,0,0,false,true}' % (v, c128(g.types[t][1]), c128(g.types[t][2])) for v, t in g.vars]
    td += ['{"%s",%s,%s,0,0,false,true}' % (b, c128(rng_of(BUILTIN[t][:2])[0]), c128(rng_of(BUILTIN[t][:2])[1])) for b, t in g.bi]
    td += ['{"%s",%s,%s,0,0,false,true}' % ('vw'[i > 3], c128(g.types[g.V][1]), c128(g.types[g.V][2])) for i in range(8)]
    L.append('static const TD in%d[] = {%s};' % (k, ','.join(td)))
    L.append('static const char *const text%d[] = {%s};' % (k, ','.join(json.dumps(s) for s in g.stmts)))
    L.append('static const Prog prog%d = {"program %d", %s, %d, in%d, &P%d<Safe<%d>>::run, &P%d<Model<%d>>::run, text%d};' %
             (k, k, json.dumps(desc(g)), len(td), k, k, pol, k, pol, k))
    return L


def wide(t):
    return 'unsigned long long' if t[2] >= 2**63 else 'long long'


def desc(g):
    s = lambda t: re.sub(r'typename W::template ', '', t).replace('t<', 'safe<', 1) if ' t<' in t else re.sub(r'typename W::template [su]r', 'range', t)
    return '%s; %s; vectors of %s' % (('native', 'automatic')[g.pol & 1] + (', strict', ', loose', ', own policy')[g.pol >> 1], ', '.join('%s: %s' % (v, s(g.types[t][0])) for v, t in g.vars), s(g.types[g.V][0]))


def tu_of(name, gs, args, cxx, std, opt, keep=None):
    L = ['#include "prog.hpp"']
    for g in gs:
        L += text_of(g, keep)
    L += ['int main(int, char **argv) { Stats st; Rng r(strtoull(argv[1], 0, 10)); const uint64_t n = strtoull(argv[2], 0, 10);']
    L += ['drive(prog%d, r, n, st);' % g.k for g in gs]
    L += ['st.report(); return 0; }']
    tu = TU(name, L, args, cxx=cxx, flags=[opt], std=std)
    tu.gens = gs
    return tu


def minimise(ck, deadline):
    """drop statements of the first failing programs while they still fail"""
    out, done = [], 0
    for key, d, tu in ck.viol:
        m = re.match(r'program (\d+)\|(\d+)$', key)
        if not m or tu is None or done >= 2:
            out.append((key, d, tu))
            continue
        done += 1
        g = next(x for x in tu.gens if x.k == int(m.group(1)))
        st, best, bd, bt = int(m.group(2)), set(range(len(g.stmts))), d, tu

        def fails(keep):
            q = tu_of('S31_min%d' % g.k, [g], (tu.args[0], 4 * int(tu.args[1])), tu.cxx, tu.std, '-O1', keep)
            build_run(q, ck.bdir, 200)
            f = [x for x in (q.result or {}).get('fails', []) if x['key'] == key]
            return (f[0]['desc'], q) if f else None
        for keep in [{st}] + [None] * len(g.stmts):
            if time.time() > deadline or len(best) == 1:
                break
            if keep is None:
                left = sorted(best - {st} - getattr(g, 'needed', set()))
                if not left:
                    break
                x = left[0]
                keep = best - {x}
            else:
                x = None
            f = fails(keep)
            if f:
                best, (bd, bt) = keep, f
            elif x is not None:
                g.needed = getattr(g, 'needed', set()) | {x}
        out.append((key, bd + (' (after: %s)' % '; '.join(g.stmts[i] for i in sorted(best) if i < st) if len(best) > 1 and len(best) < len(g.stmts) else ''), bt))
    ck.viol = out


def s31(ck):
    ck.rule = ('random programs (scalars and containers of safe integers, control flow, algorithms of users and of the standard library), each compiled with safe integers and with an independent model of an integer type, '
               'run on generated inputs; one evaluation is one run, compared event by event; non-trivial: more than eight events compared; distinct by program and inputs')
    r = ck.rng
    nt, per, ns, runs = (44, 5, 7, 4000) if ck.quick else (300, 6, 9, 12000)
    tus, k = [], 0
    for i in range(nt):
        gs, std = [], r.choice(['c++14', 'c++17', 'c++20'])
        for _ in range(per):
            gs.append(Gen(r, k, int(r.random() < .3) + r.choice([0, 0, 2, 4]), std).build(r.choice(range(ns - 2, ns + 3))))
            k += 1
        tus.append(tu_of('S31_t%d' % i, gs, (ck.seed * 1000 + i, runs), 'clang++' if i % 4 == 3 else 'g++', std, r.choice(['-O0', '-O1', '-O1'])))
    ck.run(tus)
    ck.instances = sum(len(g.stmts) for t in tus for g in t.gens)
    ck.extra['programs'] = k
    if ck.viol:
        minimise(ck, time.time() + 120)
