"""P22: numeric expressions. All token strings up to a length; the value is observed as the BZERO of a map."""
import itertools, math, re
from e2e.inputs import *

NUM = re.compile(r'(\d+(\.\d*)?|\.\d+)([Ee][-+]?\d{1,3})?')
FN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'ln': math.log, 'exp': math.exp, 'sqrt': math.sqrt}

class Bad(Exception): pass
class Undefined(Bad): pass

def tokens(t):
    out, i = [], 0
    while i < len(t):
        if t[i] in ' \t': i += 1; continue
        m = NUM.match(t, i)
        if m: out.append(float(m.group())); i = m.end(); continue
        m = re.compile(r'[A-Za-z]+\d*').match(t, i)
        if m: out.append(m.group()); i = m.end(); continue
        if t[i] in '+-*/^()': out.append(t[i]); i += 1; continue
        raise Bad('character')
    return out

def evaluate(t):
    """Value by the ordinary rules; Bad when malformed; Undefined when it has no finite value; None when too large to compare."""
    tk = tokens(t) + ['$']
    pos = [0]
    def peek(): return tk[pos[0]]
    def nxt(): pos[0] += 1; return tk[pos[0] - 1]
    def add_():
        v = mul_()
        while peek() in ('+', '-'):
            v = ('+', v, mul_()) if nxt() == '+' else ('-', v, mul_())
        return v
    def mul_():
        v = una()
        while peek() in ('*', '/'):
            o = nxt(); v = (o, v, una())
        return v
    def una():
        if peek() == '-': nxt(); return ('neg', una())
        if peek() == '+': nxt(); return una()
        return pow_()
    def pow_():
        b = atom()
        if peek() == '^': nxt(); return ('^', b, una())
        return b
    def atom():
        x = nxt()
        if isinstance(x, float): return x
        if x == '(':
            v = add_()
            if nxt() != ')': raise Bad('paren')
            return v
        if x in FN:
            if nxt() != '(': raise Bad('call')
            v = add_()
            if nxt() != ')': raise Bad('paren')
            return (x, v)
        raise Bad('atom')
    v = add_()
    if peek() != '$': raise Bad('rest')
    def ev(n):
        if isinstance(n, float): return n
        a = [ev(x) for x in n[1:]]
        if any(x is None for x in a): return None
        try:
            o = n[0]
            if o == '+': r = a[0] + a[1]
            elif o == '-': r = a[0] - a[1]
            elif o == '*': r = a[0] * a[1]
            elif o == '/':
                if a[1] == 0: raise Bad('division by zero')
                r = a[0] / a[1]
            elif o == 'neg': r = -a[0]
            elif o == '^': r = math.pow(a[0], a[1])
            else: r = FN[o](a[0])
        except (ValueError, OverflowError, ZeroDivisionError): raise Undefined(o)
        if not math.isfinite(r): raise Undefined(o)
        return r if abs(r) < 1e30 else None
    return ev(v)

# unary chains after '^' bind as written: 2^-1^2 = 2^(-(1^2))

def explore(eng):
    good, bad, seen = [], [], set()
    def consider(t, reject=True):
        if t in seen or not t.strip(): return
        seen.add(t)
        try: v = evaluate(t)
        except Bad as e:
            if reject or isinstance(e, Undefined): bad.append(t)
            return
        if v is not None: good.append((t, v))
    A = ['2', '3', '+', '-', '*', '/', '^', '(', ')']
    nv = 7 if eng.thorough else 5
    ni = 5 if eng.thorough else 3
    for n in range(1, nv + 1):
        alpha = A if n <= 5 else ['2', '3', '+', '-', '/', '^']
        for s in itertools.product(alpha, repeat=n):
            if n > ni and (s[0] in '*/^)' or s[-1] in '+-*/^(' or s.count('(') != s.count(')')): continue
            # '/' is distinguished from '*' only by its value
            consider(' '.join(s), n <= ni)
            consider(''.join(s), n <= ni)
    for f in FN:
        for arg in ('0.5', '0', '1', '.25+.5', '-0.5', '(0.75)', '1-0.5', '2^-1', 'cos(0.3)', '1E-1', '7.5E-01', '5.E-2'):
            for pre in ('', '-', '2*', '2^', '1 - ', '(', '3/'):
                for post in ('', '^2', '*3', '-1', ' + 1'):
                    t = pre + f + '(' + arg + ')' + post + (')' if pre == '(' else '')
                    consider(t, False)
    for t in ['foo(2)', 'SIN(1)', 'x', 'pi', 'sin', 'sin 1', 'sin()', 'sin(1', 'sin(1))', 'sin(1,2)', '2x', '1..2', '2 3', '()', '(2', '2)', '1/0', '2/(3-3)', '1/sin(0)', '3%2', '2**3', '0x10', '1,5', 'nan', 'inf', '.', '+', '-', '1E', '1E400', '$', '2=3', 'a=2', '2!', 'log(2)', 'abs(1)', 'sqrt(-1)', 'ln(0)', 'ln(-2)', 'asin(1.01)', 'acos(-2)', 'exp(1000)', '10^309', '(-8)^(1/3)', '0^-1', '1e200*1e200', '1e308+1e308', '-1e308-1e308', '1e200/1e-200', 'sin(sqrt(-1))', '0*exp(1000)', '1/exp(1000)', '2^sqrt(-1)', 'atan(ln(0))', 'exp(-exp(1000))']:
        if t not in seen: seen.add(t); bad.append(t)
    for t in ['1E3', '1e3', '2.5e-1', '1.5E2', '2.E1', '.5E+2', '25E-001', '1E10', '123456789.25', '0.1', '007', '1E0', '-1E2', '+5', '-.5', '12.']:
        consider(t, False)
    # deep and long expressions, whose value is known by construction
    for n in (10, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 400, 1000, 2000):
        good += [('(' * n + '7' + ')' * n, 7.0), ('1' + '+1' * n, n + 1.0), ('1' + '-1' * n, 1.0 - n), ('1' + ' + 2 - 3' * n, 1.0 - n), ('2' + '*2/2' * n, 2.0), ('-' * n + '5', 5.0 * (-1) ** n), ('3' + '^1' * n, 3.0), ('2^' + '(' * n + '3' + ')' * n, 8.0),
                 ('(1+' * n + '0' + ')' * n, float(n)), ('1-(' * n + '1' + ')' * n, float(1 - n % 2)), ('sqrt(' * n + '1' + ')' * n, 1.0), ('-(' * n + '4' + ')' * n, 4.0 * (-1) ** n), ('2+3*(' * min(n, 30) + '0' + ')' * min(n, 30), 3.0 ** min(n, 30) - 1),
                 ('0' * n + '12', 12.0), ('12.' + '0' * n, 12.0), ('0.' + '0' * min(n, 25) + '5', 5 * 10.0 ** (-1 - min(n, 25))), (' ' * n + '6' + ' ' * n, 6.0), ('1' + ' ' * n + '+' + '\t' * n + '2', 3.0)]
        bad += ['(' * n + '7' + ')' * (n - 1), '(' * n + '7' + ')' * (n + 1), '1' + '+1' * n + '+', '1' + '*1' * n + '1 1']
    B = 120
    for b in range(0, len(good), B):
        part = good[b:b + B]
        eng.case('batch %d: %s' % (b, part[0][0]), values(part))
    for t in bad:
        def fn(c, t=t):
            c.write('in', entry(dtype='DOUBLE', offset=t, samples=1, lines=1, planes=['LONGITUDE']))
            r = c.marc('in')
            c.check(r.rc != 0 and not r.crashed, 'accepted', 'malformed expression %r: %r' % (t, r))
            c.check(not c.exists('m.fits'), 'map-written', 'map written for malformed expression %r' % t)
            c.state('bad', t)
        eng.case('malformed ' + t, fn)

def values(part):
    def text(i, t): return entry('m%d.fits' % i, dtype='DOUBLE', offset=t, samples=1, lines=1, planes=['LONGITUDE'])
    def fn(c):
        c.write('in', ''.join(text(i, t) for i, (t, v) in enumerate(part)))
        r = c.marc('in')
        if r.rc != 0:
            for i, (t, v) in enumerate(part):
                c.write('one', text(i, t))
                q = c.marc('one')
                if not c.check(q.rc == 0, 'refused', 'expression %r: %r' % (t, q)): return
            c.check(False, 'refused', 'expressions accepted one by one are refused together: %r' % r)
            return
        for i, (t, v) in enumerate(part):
            got = c.fits('m%d.fits' % i)[0].h.get('BZERO')
            if not c.check(got is not None and math.isclose(got, v, rel_tol=1e-12, abs_tol=1e-13), 'value', 'expression %r gives %s, expected %s' % (t, got, v)): return
            c.state(t, v)
        c.steps(len(part))
    return fn
