"""C44: the printed report shows the solved values."""
import io
import re

INFO = dict(
    functions=['printpf', 'isload', 'ppoption', 'userfcn_reserves_printpf', 'userfcn_iflims_printpf', 'userfcn_dcline_printpf'],
    bounds='3 buses in arbitrary numbering, 4-5 units (producing, out of service, dispatchable loads), 3-4 branches (transformer, tie, out of '
           'service); every printed quantity symbolic, each limit section with symbolic outputs, limits and multipliers; AC, DC, power flow '
           'and OPF answers; all values of the report switches; per section a subset of the other data is concrete',
    outside='wording, column widths and spacing; digits beyond the ones printed; sections added by user callbacks other than the built-in reserve, interface and DC line ones (C37)',
    assumptions='a symbolic number is written as a numeral that stands for it, so that formatting is exact up to the decimals printed')
PTOL = 1e-4


def options(env, **k):
    o = env.fn('ppoption')()
    o.update(dict(OUT_ALL=-1, OUT_SYS_SUM=False, OUT_AREA_SUM=False, OUT_BUS=False, OUT_BRANCH=False, OUT_GEN=False, OUT_ALL_LIM=0,
                  OPF_VIOLATION=0.01, PF_DC=False))
    o.update(k)
    return o


def report(env, res, opt, old=False):
    fd = io.StringIO()
    env.text()
    if old:
        env.fn('printpf')(res['baseMVA'], res['bus'], res['gen'], res['branch'], res.get('f'), res['success'], res['et'], fd, opt)
    else:
        env.fn('printpf')(res, fd, opt)
    return fd.getvalue()


def sections(text):
    """title -> blocks of lines between the dashed lines"""
    out, lines, i = {}, text.split('\n'), 0
    title, head = None, []
    while i < len(lines):
        if lines[i].startswith('====') and i + 2 < len(lines) and lines[i + 1].startswith('|'):
            title = lines[i + 1].strip('| ').strip()
            out[title] = [[]]
            i += 3
            continue
        if title is None:
            head.append(lines[i])
        elif lines[i].strip() and not lines[i].strip('- '):
            out[title].append([])
        elif lines[i].strip():
            out[title][-1].append(lines[i])
        i += 1
    return head, out


def numbers(line):
    return [t for t in line.replace('*', ' * ').split() if t != '*']


def shown(env, label, line, want, dec):
    """want: None for '-', a number with its decimals otherwise"""
    got = numbers(line)
    env.ok(label + ': entries', len(got) == len(want))
    if len(got) != len(want):
        return
    for k, (t, w) in enumerate(zip(got, want)):
        d = dec[k] if isinstance(dec, (list, tuple)) else dec
        if w is None:
            env.ok('%s: dash %d' % (label, k), t == '-')
        else:
            env.shows('%s: value %d' % (label, k), t, w, d)


NUM = (7, 3, 9)
GB = (1, 0, 0, 2, 2)            # units: producing, producing, out of service, dispatchable load, load out of service
STAT = (1, 1, 0, 1, 0)
LOADS = (3, 4)
ENDS = ((0, 1), (1, 2), (0, 2), (2, 0))
BSTAT = (1, 1, 1, 0)


def base(env, sym=(), opf=True, areas=(1, 1, 2), num=NUM):
    """an answer with unknown entries in the named groups"""
    np_ = env.np
    n, ng, nl = 3, len(GB), len(ENDS)
    bus, gen, br = np_.zeros((n, 17 if opf else 13)), np_.zeros((ng, 25 if opf else 21)), np_.zeros((nl, 21 if opf else 17))

    def v(grp, nm, lo, hi, c):
        return env.var(nm, lo, hi) if grp in sym else c
    for i in range(n):
        bus[i, :13] = [num[i], (3, 2, 1)[i], (0.0, 0.0, 5.0)[i], (0.0, 2.0, 0.0)[i], (3.0, 0.0, 0.0)[i], (0.0, 0.0, 4.0)[i], areas[i],
                       v('v', 'vm%d' % i, .5, 1.5, 1.0 + i), v('va', 'va%d' % i, -60, 60, 2.0 * i), 230, 1, 2.5, 0.75]
        if 'ld' in sym and i:
            bus[i, 2] = env.var('pd%d' % i, -50, 50)
            bus[i, 3] = env.var('qd%d' % i, -50, 50) if i == 2 else 0.0
        if 'ldn' in sym and i:
            bus[i, 2], bus[i, 3] = env.var('pd%d' % i, 1, 50), env.var('qd%d' % i, 1, 50)
        if 'sh' in sym and i != 1:
            bus[i, 4 if i == 0 else 5] = env.var('sh%d' % i, 1, 50)
        if opf:
            bus[i, 13], bus[i, 14] = v('lam', 'lp%d' % i, -50, 50, 3.0), (v('lam', 'lq%d' % i, -50, 50, 5.0) if i == 1 else 5.0 + i)
    for k in range(ng):
        gen[k, 0], gen[k, 7] = num[GB[k]], STAT[k]
        gen[k, 6] = 100.0
        gen[k, 1] = v('pg', 'pg%d' % k, 1, 50, 20.0 + k) * (-1 if k in LOADS else 1)
        gen[k, 2] = v('qg', 'qg%d' % k, 1, 50, 2.0 + k) * (-1 if k in LOADS else 1)
        gen[k, 8], gen[k, 9] = (0.0, -60.0 - k) if k in LOADS else (70.0 + k, 0.0)
        gen[k, 3], gen[k, 4] = (0.0, -30.0 - k) if k in LOADS else (40.0 + k, -20.0 - k)
        if 'cap' in sym:
            if k in LOADS:
                gen[k, 9], gen[k, 4] = -60.0 - k, -env.var('ql%d' % k, 1, 50)
            else:
                gen[k, 8], gen[k, 3], gen[k, 4] = env.var('px%d' % k, 1, 50), env.var('qx%d' % k, 1, 50), env.var('qn%d' % k, -50, 0)
    for k, (f, t) in enumerate(ENDS):
        br[k, :13] = [num[f], num[t], v('z', 'r%d' % k, .5, 2, 0.5), v('z1' if k == 1 else 'z', 'x%d' % k, .5, 2, 1.0), v('z', 'b%d' % k, .1, 1, .5), 80.0, 0, 0,
                      (v('z', 'tap%d' % k, .5, 2, 2.0) if k == 1 else 0.0), 0.0, BSTAT[k], -360, 360]
        if 'shift' in sym and k == 1:
            br[k, 9] = env.var('shift', -60, 60, angle=True)
        for c in range(4):
            br[k, 13 + c] = v('fl', 'f%d_%d' % (k, c), -50, 50, 7.0 + 4 * k + c) if BSTAT[k] else 0.0
    r = dict(baseMVA=env.var('base', 1, 50) if 'base' in sym else 2.0, bus=bus, gen=gen, branch=br, success=True, et=0.5)
    if opf:
        r['f'] = env.var('f', 1, 50) if 'f' in sym else 60.0
    return r


def is_ld(k):
    return k in LOADS


def tot(xs):
    t = 0.0
    for x in xs:
        t = t + x
    return t


def h_bus(env, opf, sym, dc=False, old=False):
    r = base(env, sym, opf)
    bus, gen = r['bus'].copy(), r['gen'].copy()
    head, sec = sections(report(env, r, options(env, OUT_BUS=True, PF_DC=dc), old))
    env.ok('one section', sorted(sec) == ['Bus Data'])
    rows, last = sec['Bus Data'][1], sec['Bus Data'][2]
    env.ok('row per bus', len(rows) == 3)
    q = 0.0 if dc else 1.0
    for i in range(3):
        g = [k for k in range(len(GB)) if GB[k] == i and STAT[k] and not is_ld(k)]
        ld = [k for k in range(len(GB)) if GB[k] == i and STAT[k] and is_ld(k)]
        want, dec = [bus[i, 0], bus[i, 7], bus[i, 8]], [0, 3, 3]
        want += [tot(gen[k, 1] for k in g), tot(gen[k, 2] * q for k in g)] if g else [None, None]
        pd, qd = bus[i, 2], bus[i, 3] * q
        if ld or pd != 0 or qd != 0:
            want += [pd - tot(gen[k, 1] for k in ld), qd - tot(gen[k, 2] * q for k in ld)]
        else:
            want += [None, None]
        dec += [2] * 4
        if opf:
            lq = bus[i, 14]
            want += [bus[i, 13], lq if lq > PTOL or lq < -PTOL else None]
            dec += [3, 3]
        shown(env, 'bus %d' % i, rows[i], want, dec)
        env.ok('reference marked %d' % i, ('*' in rows[i].split('.')[2][3:5]) == (i == 0))
        env.ok('dispatchable loads marked %d' % i, rows[i].count('*') == (2 if ld else 0) + (i == 0))
    on = [k for k in range(len(GB)) if STAT[k]]
    shown(env, 'total', last[0].split(':')[1],
          [tot(gen[k, 1] for k in on if not is_ld(k)), tot(gen[k, 2] * q for k in on if not is_ld(k)),
           tot(bus[i, 2] for i in range(3)) - tot(gen[k, 1] for k in on if is_ld(k)),
           (tot(bus[i, 3] for i in range(3)) - tot(gen[k, 2] for k in on if is_ld(k))) * q], 2)
    env.ok('status line', ('Converged' in head[1]) and ('0.50' in head[1]))
    if opf:
        env.shows('objective', [l for l in head if 'Objective' in l][0].split('=')[1].split()[0], r['f'], 2)
    else:
        env.ok('no objective', not any('Objective' in l for l in head))


def h_gen(env, opf, sym, dc=False, none=False):
    r = base(env, sym, opf)
    gen = r['gen']
    gb, stat = list(GB), list(STAT)
    if none:
        r['gen'] = gen = gen[:3]
        gb, stat = gb[:3], stat[:3]
    gen[1, 1] = env.var('pz', -50, 50)
    gen[1, 2] = env.var('qz', -50, 50)
    if not none:
        gen[3, 1] = -env.var('pl', 0, 50)
        gen[3, 2] = 0.0
    gen, bus = gen.copy(), r['bus'].copy()
    head, sec = sections(report(env, r, options(env, OUT_GEN=True, PF_DC=dc)))
    env.ok('sections', sorted(sec) == (['Generator Data'] if none else ['Dispatchable Load Data', 'Generator Data']))
    for title, loads in (('Generator Data', False), ('Dispatchable Load Data', True)):
        if title not in sec:
            continue
        ks = [k for k in range(len(gb)) if stat[k] and is_ld(k) == loads]
        rows, last = sec[title][1], sec[title][2]
        env.ok(title + ' rows', len(rows) == len(ks))
        sg = -1.0 if loads else 1.0
        q = 0.0 if dc else 1.0
        for row, k in zip(rows, ks):
            p_, q_ = gen[k, 1], gen[k, 2] * q
            want = [k, bus[gb[k], 0], 1] + ([sg * p_, sg * q_] if p_ != 0 or q_ != 0 else [None, None])
            want += [bus[gb[k], 13], bus[gb[k], 14]] if opf else []
            shown(env, 'unit %d' % k, row, want, [0, 0, 0, 2, 2, 2, 2])
        shown(env, title + ' total', last[0].split(':')[1], [sg * tot(gen[k, 1] for k in ks), sg * tot(gen[k, 2] * q for k in ks)], 2)


def series_loss(env, r, k, dc=False):
    f, t = ENDS[k]
    bus, br = r['bus'], r['branch']
    if dc or not BSTAT[k]:
        return 0.0, 0.0
    tap = br[k, 8] if k == 1 else 1.0
    vf, vt = bus[f, 7] / tap, bus[t, 7]
    d = (bus[f, 8] - br[k, 9] - bus[t, 8]) * (env.np.pi / 180)
    d2 = (vf * vf + vt * vt - 2 * vf * vt * env.cos(d)) * r['baseMVA']
    z2 = br[k, 2] * br[k, 2] + br[k, 3] * br[k, 3]
    return d2 * br[k, 2] / z2, d2 * br[k, 3] / z2


def charging(env, r, k):
    """injections at the two ends"""
    if not BSTAT[k]:
        return 0.0, 0.0
    f, t = ENDS[k]
    bus, br = r['bus'], r['branch']
    tap = br[k, 8] if k == 1 else 1.0
    h = br[k, 4] * r['baseMVA'] / 2
    return bus[f, 7] * bus[f, 7] / tap / tap * h, bus[t, 7] * bus[t, 7] * h


def copyr(r):
    return dict((k, v.copy() if hasattr(v, 'copy') else v) for k, v in r.items())


def h_branch(env, opf, sym, dc=False):
    r = base(env, sym, opf)
    w = copyr(r)
    head, sec = sections(report(env, r, options(env, OUT_BRANCH=True, PF_DC=dc)))
    env.ok('one section', sorted(sec) == ['Branch Data'])
    rows, last = sec['Branch Data'][1], sec['Branch Data'][2]
    env.ok('row per branch', len(rows) == len(ENDS))
    L = [series_loss(env, w, k, dc) for k in range(len(ENDS))]
    br = w['branch']
    for k, row in enumerate(rows):
        f, t = ENDS[k]
        shown(env, 'branch %d' % k, row, [k, NUM[f], NUM[t]] + [br[k, c] for c in range(13, 17)] + list(L[k]), [0, 0, 0, 2, 2, 2, 2, 3, 2])
    shown(env, 'total', last[0].split(':')[1], [tot(l[0] for l in L), tot(l[1] for l in L)], [3, 2])


def h_system(env, opf, sym, dc=False, num=NUM):
    r = base(env, sym, opf, num=num)
    w = copyr(r)
    text = report(env, r, options(env, OUT_SYS_SUM=True, PF_DC=dc))
    head, sec = sections(text)
    env.ok('one section', sorted(sec) == ['System Summary'])
    body = '\n'.join('\n'.join(b) for b in sec['System Summary'])
    bus, gen, br = w['bus'], w['gen'], w['branch']
    q = 0.0 if dc else 1.0
    ks = range(len(GB))
    al = [k for k in ks if not is_ld(k)]
    on, ld = [k for k in al if STAT[k]], [k for k in ks if STAT[k] and is_ld(k)]
    fix = [i for i in range(3) if bus[i, 2] != 0 or bus[i, 3] * q != 0]
    shn = [0] + ([] if dc else [2])
    nshow = [0]

    def row(label, pat, want, dec=1):
        m = re.search(pat, body)
        env.ok(label + ' present', m is not None)
        if m is None:
            return
        for k, (t, x) in enumerate(zip(m.groups(), want)):
            nshow[0] += 1
            env.shows('%s %d' % (label, k), t, x, dec[k] if isinstance(dec, list) else dec)
    N, I = r'\s*(-?[\d.]+)', r'\s+(\d+)\s'
    for label, c in (('Buses', 3), ('Generators', len(al)), ('Committed Gens', len(on)), ('Loads', len(fix) + len(ld)), ('  Fixed', len(fix)),
                     ('  Dispatchable', len(ld)), ('Shunts', len(shn)), ('Branches', len(ENDS)), ('Transformers', 1), ('Inter-ties', 3),
                     ('Areas', 2)):
        row(label, r'(?m)^' + label + r'\s+(\d+)\b', [c], 0)
    s = lambda c, idx: tot(gen[k, c] for k in idx)
    row('capacity', 'Total Gen Capacity' + N + N + ' to' + N, [s(8, al), s(4, al) * q, s(3, al) * q])
    row('on-line', 'On-line Capacity' + N + N + ' to' + N, [s(8, on), s(4, on) * q, s(3, on) * q])
    row('generation', r'Generation \(actual\)' + N + N, [s(1, on), s(2, on) * q])
    pf, qf = tot(bus[i, 2] for i in fix), tot(bus[i, 3] for i in fix) * q
    row('load', r' Load ' + N + N, [pf - s(1, ld), qf - s(2, ld) * q])
    row('fixed', r' Fixed  ' + N + N, [pf, qf])
    row('dispatchable', r' Dispatchable  ' + N + ' of' + N + r'\s' + N, [-s(1, ld), -s(9, ld), -s(2, ld) * q])
    row('shunt', r'Shunt \(inj\)' + N + N, [-tot(bus[i, 7] * bus[i, 7] * bus[i, 4] for i in range(3)),
                                            tot(bus[i, 7] * bus[i, 7] * bus[i, 5] for i in range(3)) * q])
    L = [series_loss(env, w, k, dc) for k in range(len(ENDS))]
    Ch = [charging(env, w, k) for k in range(len(ENDS))]
    row('losses', r'Losses \(I\^2 \* Z\)' + N + N, [tot(l[0] for l in L), tot(l[1] for l in L)], 2)
    row('charging', r'Branch Charging \(inj\)\s+-' + N, [tot(a + b for a, b in Ch) * q])
    ties = [1, 2, 3]
    row('ties', 'Total Inter-tie Flow' + N + N, [tot(env.abs(br[k, 13] - br[k, 15]) for k in ties) / 2, tot(env.abs(br[k, 14] - br[k, 16]) for k in ties) / 2])
    env.ok('all rows', nshow[0] >= 11 + 16)

    def extreme(label, pat, vals):
        m = re.search(pat, body)
        env.ok(label + ' present', m is not None)
        lo, bl, hi, bh = m.groups()
        for nm, t, b, sgn in (('min', lo, bl, 1), ('max', hi, bh, -1)):
            i = list(num).index(int(b))
            env.shows('%s %s' % (label, nm), t, vals[i], 2)
            for j in range(3):
                env.cmp('%s %s is extreme' % (label, nm), vals[i] * sgn, vals[j] * sgn)
    at = r' *@ bus (\d+)'
    extreme('voltage', 'Voltage Magnitude' + N + r' p.u.' + at + N + r' p.u.' + at, [bus[i, 7] for i in range(3)])
    extreme('angle', 'Voltage Angle' + N + r' deg ' + at + N + r' deg ' + at, [bus[i, 8] for i in range(3)])
    if opf:
        extreme('price', 'Lambda P' + N + r' ./MWh' + at + N + r' ./MWh' + at, [bus[i, 13] for i in range(3)])
        extreme('reactive price', 'Lambda Q' + N + r' ./MWh' + at + N + r' ./MWh' + at, [bus[i, 14] for i in range(3)])
    env.ok('prices only for an OPF', ('Lambda' in body) == opf)
    for nm, c in (('P', 0), ('Q', 1)):
        m = re.search(nm + r' Losses \(I\^2\*.\)\s+-' + N + r' MV?Wr? *@ line (\d+)-(\d+)' if c == 0 else
                      nm + r' Losses \(I\^2\*.\)\s+-' + N + r' MVAr *@ line (\d+)-(\d+)', body)
        env.ok('largest loss %s' % nm, (m is None) == dc)
        if m is not None:
            k = [(num[f], num[t]) for f, t in ENDS].index((int(m.group(2)), int(m.group(3))))
            env.shows('largest loss %s shown' % nm, m.group(1), L[k][c], 2)
            for j in range(len(ENDS)):
                env.cmp('largest loss %s is largest' % nm, L[j][c], L[k][c])


def h_area(env, areas, sym, dc=False):
    r = base(env, sym, False, areas)
    w = copyr(r)
    head, sec = sections(report(env, r, options(env, OUT_AREA_SUM=True, PF_DC=dc)))
    env.ok('one section', sorted(sec) == ['Area Summary'])
    S_ = sec['Area Summary']
    bus, gen, br = w['bus'], w['gen'], w['branch']
    q = 0.0 if dc else 1.0
    nums = sorted(set(areas))
    tables = []
    for k in range(len(S_) - 1):
        if k + 1 < len(S_) and S_[k + 1] and S_[k + 1][0].startswith('Tot:'):
            tables.append((S_[k], S_[k + 1][0]))
    env.ok('four tables', len(tables) == 4)
    ks, ls = range(len(GB)), range(len(ENDS))
    L = [series_loss(env, w, k, dc) for k in ls]
    Ch = [tuple(x * q for x in charging(env, w, k)) for k in ls]

    def parts(a):
        """indices in area a; None: everywhere"""
        ina = lambda i: a is None or areas[i] == a
        ib = [i for i in range(3) if ina(i)]
        ig = [k for k in ks if not is_ld(k) and ina(GB[k])]
        on = [k for k in ig if STAT[k]]
        ld = [k for k in ks if is_ld(k) and STAT[k] and ina(GB[k])]
        fix = [i for i in ib if bus[i, 2] != 0 or bus[i, 3] * q != 0]
        sh = [i for i in ib if bus[i, 4] != 0 or bus[i, 5] * q != 0]
        if a is None:
            inner = [k for k in ls]
            ties = [k for k in ls if areas[ENDS[k][0]] != areas[ENDS[k][1]]]
        else:
            inner = [k for k in ls if ina(ENDS[k][0]) and ina(ENDS[k][1])]
            ties = [k for k in ls if ina(ENDS[k][0]) != ina(ENDS[k][1])]
        xf = [k for k in inner if k == 1]
        return ib, ig, on, ld, fix, sh, inner, ties, xf

    def rowof(a, t):
        ib, ig, on, ld, fix, sh, inner, ties, xf = parts(a)
        s = lambda c, idx: tot(gen[k, c] for k in idx)
        if t == 0:
            return [len(ib), len(ig), len(on), len(fix) + len(ld), len(fix), len(ld), len(sh), len(inner), len(xf), len(ties)], [0] * 10
        if t == 1:
            return [s(8, ig), s(4, ig) * q, s(3, ig) * q, s(8, on), s(4, on) * q, s(3, on) * q, s(1, on), s(2, on) * q], [1] * 8
        if t == 2:
            pf, qf = tot(bus[i, 2] for i in fix), tot(bus[i, 3] for i in fix) * q
            return [-s(9, ld), -s(4, ld) * q, -s(1, ld), -s(2, ld) * q, pf, qf, pf - s(1, ld), qf - s(2, ld) * q], [1] * 8
        gs = -tot(bus[i, 7] * bus[i, 7] * bus[i, 4] for i in sh)
        bs = tot(bus[i, 7] * bus[i, 7] * bus[i, 5] for i in sh) * q
        if a is None:
            return [gs, bs, tot(x + y for x, y in Ch), tot(l[0] for l in L), tot(l[1] for l in L), None, None], [1, 1, 1, 2, 2, 1, 1]
        inner, ties = [k for k in inner if BSTAT[k]], [k for k in ties if BSTAT[k]]
        frm = [k for k in ties if areas[ENDS[k][0]] == a]
        to = [k for k in ties if k not in frm]
        ch = tot(Ch[k][0] + Ch[k][1] for k in inner) + tot(Ch[k][0] for k in frm) + tot(Ch[k][1] for k in to)
        lo = [tot(L[k][c] for k in inner) + tot(L[k][c] for k in ties) / 2 for c in (0, 1)]
        ex = [tot(br[k, 13 + c] for k in frm) + tot(br[k, 15 + c] for k in to) - tot(L[k][c] for k in ties) / 2 for c in (0, 1)]
        return [gs, bs, ch] + lo + ex, [1, 1, 1, 2, 2, 1, 1]
    for t, (rows, total) in enumerate(tables):
        env.ok('row per area %d' % t, len(rows) == len(nums))
        for a, row in zip(nums, rows):
            want, dec = rowof(a, t)
            shown(env, 'table %d area %d' % (t, a), row.replace(' to ', ' '), [a] + want, [0] + dec)
        want, dec = rowof(None, t)
        shown(env, 'table %d total' % t, total.split(':')[1].replace(' to ', ' '), want, dec)


def apart(env, x, y):
    env.assume(env.Or(x - y >= 1e-3, y - x >= 1e-3))


def mus(env, *names):
    v = [env.var(n, 0, 5) for n in names]
    for x in v:
        env.assume(env.Or(x >= PTOL + 1e-6, x <= PTOL - 1e-6))
    return v


def h_vlim(env, lim, dc=False):
    r = base(env, (), True)
    bus = r['bus']
    ct = 0.01
    for i in (0, 2):
        bus[i, 7], bus[i, 11], bus[i, 12] = env.var('v%d' % i, 0, 2), env.var('vx%d' % i, 1, 2), env.var('vn%d' % i, 0, 1)
        bus[i, 15], bus[i, 16] = mus(env, 'mx%d' % i, 'mn%d' % i) if i == 0 else (0.0, 0.0)
        apart(env, bus[i, 7], bus[i, 12] + ct)
        apart(env, bus[i, 7], bus[i, 11] - ct)
    bus[1, 7], bus[1, 11], bus[1, 12] = 1.0, 1.5, 0.5
    b = bus.copy()
    head, sec = sections(report(env, r, options(env, OUT_ALL_LIM=-1, OUT_V_LIM=lim, OUT_LINE_LIM=0, OUT_PG_LIM=0, OUT_QG_LIM=0, PF_DC=dc)))
    want = []
    for i in range(3):
        lo = bool(b[i, 7] < b[i, 12] + ct) or bool(b[i, 16] > PTOL)
        hi = bool(b[i, 7] > b[i, 11] - ct) or bool(b[i, 15] > PTOL)
        if lim == 2 or (lim == 1 and (lo or hi)):
            want.append((i, [b[i, 0], b[i, 16] if lo else None, b[i, 12], b[i, 7], b[i, 11], b[i, 15] if hi else None]))
    if dc or not want:
        env.ok('no section', sec == {})
        return
    env.ok('section', sorted(sec) == ['Voltage Constraints'])
    rows = sec['Voltage Constraints'][1] if sec else []
    env.ok('rows', len(rows) == len(want))
    for row, (i, x) in zip(rows, want):
        shown(env, 'bus %d' % i, row, x, [0, 3, 3, 3, 3, 3])


def h_glim(env, lim, loads, reactive, dc=False, zero=False):
    """limits of units or dispatchable loads"""
    r = base(env, (), True)
    gen = r['gen']
    ct = 0.01
    # keep the other kinds away from their limits
    for k in range(len(GB)):
        gen[k, 8], gen[k, 9] = (0.0, -90.0) if is_ld(k) else (90.0, -90.0)
        gen[k, 3], gen[k, 4] = 90.0, -90.0
    ks = [k for k in range(len(GB)) if is_ld(k) == loads]
    o, x, n, mx, mn = (2, 3, 4, 23, 24) if reactive else (1, 8, 9, 21, 22)
    for k in ks:
        c = 0.0 if k == ks[0] else 1.0
        gen[k, o] = env.var('o%d' % k, -60, -1 if not zero else 60) if k in (0, 3) else (env.var('o%d' % k, -60, 60) if not loads else -20.0)
        if reactive or not loads:
            gen[k, x] = env.var('x%d' % k, 1, 50)
        gen[k, n] = env.var('n%d' % k, -50, -1)
        if k == ks[0]:
            gen[k, mx], gen[k, mn] = mus(env, 'mx%d' % k, 'mn%d' % k)
        apart(env, gen[k, o], gen[k, n] + ct)
        apart(env, gen[k, o], gen[k, x] - ct)
    g = gen.copy()
    flags = dict(OUT_PG_LIM=0 if reactive else lim, OUT_QG_LIM=lim if reactive else 0)
    head, sec = sections(report(env, r, options(env, OUT_ALL_LIM=-1, OUT_V_LIM=0, OUT_LINE_LIM=0, PF_DC=dc, **flags)))
    want = []
    for k in ks:
        if not STAT[k]:
            continue
        lo = bool(g[k, o] < g[k, n] + ct) or bool(g[k, mn] > PTOL)
        hi = bool(g[k, o] > g[k, x] - ct) or bool(g[k, mx] > PTOL)
        if lim == 2 or (lim == 1 and (lo or hi)):
            want.append((k, [k, NUM[GB[k]], g[k, mn] if lo else None, g[k, n], g[k, o] if g[k, o] != 0 else None, g[k, x], g[k, mx] if hi else None]))
    title = 'Dispatchable Load Constraints' if loads else 'Generation Constraints'
    blocks = sec.get(title, [[]])
    word = 'Reactive Power Limits' if reactive else 'Active Power Limits'
    found = [k for k, b in enumerate(blocks) if any(word in l for l in b)]
    if (dc and reactive) or not want:
        env.ok('no table', not found)
        return
    env.ok('table', len(found) == 1)
    if not found:
        return
    rows = blocks[found[0] + 1]
    env.ok('rows', len(rows) == len(want))
    for row, (k, w) in zip(rows, want):
        shown(env, 'unit %d' % k, row, w, [0, 0, 3, 2, 2, 2, 3])


def h_flim(env, lim, kind, dc=False):
    """flow limits: apparent power, active power or current"""
    r = base(env, (), True)
    bus, br = r['bus'], r['branch']
    ct = 0.01
    br[:, 5] = 99.0
    for k in (0, 2):
        br[k, 5] = env.var('rate%d' % k, 1, 60) if k == 0 else env.choice('unl', [0.0, 30.0])
        for c in range(4):
            br[k, 13 + c] = 0.0
        br[k, 13], br[k, 15] = env.var('pf%d' % k, -60, 60), env.var('pt%d' % k, -60, 60) if k == 0 else 1.0
        if k == 0:
            br[k, 17], br[k, 18] = mus(env, 'mf%d' % k, 'mt%d' % k)
    if kind != 1 and not dc:
        br[0, 14] = env.var('qf', -60, 60)
        br[0, 15], br[0, 16] = 3.0, 4.0
        bus[0, 7] = env.var('vm', .5, 2)
    w = br.copy()

    def flow(k, e):
        p, q = w[k, 13 + 2 * e], w[k, 14 + 2 * e]
        if kind == 1 or dc:
            return p
        s = env.sqrt(p * p + q * q)
        return s / bus[ENDS[k][e], 7] if kind == 2 else s
    F = [(flow(k, 0), flow(k, 1)) for k in range(len(ENDS))]
    for k in (0, 2):
        for e in (0, 1):
            for sg in (1, -1) if kind == 1 or dc else (1,):
                apart(env, F[k][e] * sg, w[k, 5] - ct)
    b7 = bus[0, 7]
    head, sec = sections(report(env, r, options(env, OUT_ALL_LIM=-1, OUT_V_LIM=0, OUT_LINE_LIM=lim, OUT_PG_LIM=0, OUT_QG_LIM=0,
                                                OPF_FLOW_LIM=kind, PF_DC=dc)))
    want = []
    for k in range(len(ENDS)):
        at = [False, False]
        big = [False, False]
        for e in (0, 1):
            fl, rt = F[k][e], w[k, 5]
            pr = bool(w[k, 17 + e] > PTOL)
            lmt = bool(rt != 0)
            big[e] = (lmt and (bool(fl > rt - ct) or bool(-fl > rt - ct))) or pr
            at[e] = bool(fl > rt - ct) or pr
        if lim == 2 or (lim == 1 and (big[0] or big[1])):
            want.append((k, at, big))
    if not want:
        env.ok('no section', sec == {})
        return
    env.ok('section', sorted(sec) == ['Branch Flow Constraints'])
    rows = sec['Branch Flow Constraints'][1] if sec else []
    env.ok('rows', len(rows) == len(want))
    for row, (k, at, big) in zip(rows, want):
        f, t = ENDS[k]
        got = numbers(row)
        m = []
        for e, pos in ((0, 2), (1, 6)):
            # a multiplier column of an end that is not priced may hold its (zero) value or a dash
            x = w[k, 17 + e]
            m.append(None if len(got) == 8 and got[pos] == '-' and not bool(x > PTOL) else x)
        shown(env, 'branch %d' % k, row, [k, NUM[f], m[0], F[k][0], w[k, 5], F[k][1], m[1], NUM[t]], [0, 0, 3, 2, 2, 2, 3, 0])


TITLES = dict(OUT_SYS_SUM='System Summary', OUT_AREA_SUM='Area Summary', OUT_BUS='Bus Data', OUT_BRANCH='Branch Data', OUT_GEN='Generator Data')


def h_switch(env, opf, limits):
    """each switch brings its section; OUT_ALL overrides; the limit switches apply to OPF answers only"""
    r = base(env, (), opf)
    r['bus'][:, 11] = 9.0
    for k in range(len(GB)):
        r['gen'][k, 9] = -90.0
    r['success'] = env.choice('ok', [True, False])
    o = options(env, OUT_ALL=env.choice('all', [-1, 0, 1]))
    if limits:
        lims = ('OUT_V_LIM', 'OUT_LINE_LIM', 'OUT_PG_LIM', 'OUT_QG_LIM')
        o['OUT_ALL_LIM'] = env.choice('alllim', [-1, 0, 1, 2])
        for nm in lims:
            o[nm] = env.choice(nm, [0, 2]) if o['OUT_ALL_LIM'] == -1 and o['OUT_ALL'] == -1 else 2
    else:
        for nm in TITLES:
            o[nm] = env.choice(nm, [False, True]) if o['OUT_ALL'] == -1 else True
    text = report(env, r, o)
    head, sec = sections(text)
    if o['OUT_ALL'] == 0:
        env.ok('nothing printed', text == '')
        return
    for nm, title in TITLES.items():
        env.ok(title, (title in sec) == (o['OUT_ALL'] == 1 or bool(o[nm])))
    any_ = o['OUT_ALL'] == 1 or any(o[nm] for nm in TITLES)
    if opf:
        al = 2 if o['OUT_ALL'] == 1 else o['OUT_ALL_LIM']
        V, Ln, P, Q = [(o[nm] if al == -1 else al) == 2 for nm in ('OUT_V_LIM', 'OUT_LINE_LIM', 'OUT_PG_LIM', 'OUT_QG_LIM')]
        env.ok('voltage limits', ('Voltage Constraints' in sec) == V)
        env.ok('flow limits', ('Branch Flow Constraints' in sec) == Ln)
        env.ok('unit limits', ('Generation Constraints' in sec) == (P or Q))
        env.ok('load limits', ('Dispatchable Load Constraints' in sec) == (P or Q))
        any_ = any_ or al >= 1 or (al == -1 and (V or Ln or P or Q))
    else:
        env.ok('no limits', not any('Constraints' in t for t in sec))
    if any_:
        env.ok('status', ('Did not converge' in text) == (not r['success']))
        env.ok('status line', ('Converged in' in text) == bool(r['success']))
        env.ok('objective', ('Objective Function Value' in text) == opf)


def h_area_numbers(env, n):
    """every area appears, whatever the areas are"""
    a = [int(env.choice('a%d' % i, [1, 2, 5])) for i in range(3)]
    if n == 1:
        a = a[:1] * 3
    h_area(env, tuple(a), ('ldn',))


def h_single(env):
    """a case with one bus"""
    np_ = env.np
    v = env.var('v', .5, 1.5)
    bus = np_.array([[4, 3, 5.0, 0, 0, 0, 3, 1.0, 0, 230, 1, 1.1, .9]])
    bus[0, 7] = v
    gen = np_.zeros((1, 21))
    gen[0, :10] = [4, 20.0, 2.0, 50.0, -50.0, 1.0, 100.0, 1, 100.0, 0.0]
    br = np_.zeros((0, 17))
    r = dict(baseMVA=100.0, bus=bus, gen=gen, branch=br, success=True, et=0.0)
    head, sec = sections(report(env, r, options(env, OUT_AREA_SUM=True, OUT_BUS=True)))
    env.ok('area row', sec['Area Summary'][0 + 3][0].split()[0] == '3')
    shown(env, 'bus', sec['Bus Data'][1][0], [4, v, 0.0, 20.0, 2.0, 5.0, 0.0], [0, 3, 3, 2, 2, 2, 2])


def userpart(env, res, mod, fn, opt):
    res['userfcn'] = {'printpf': [{'fcn': env.mod(mod).__dict__[fn], 'args': None}]}
    return sections(report(env, res, opt))


def marked(env, v, tol):
    """a multiplier is printed when it exceeds the tolerance for display"""
    env.assume(env.Or(v >= tol + 1e-6, v <= tol - tol / 2))
    return v


def h_reserves(env, part):
    """reserve sections: every unit of a zone with its reserve, price, limits and multipliers; zone totals"""
    np_ = env.np
    r = base(env, (), True)
    gen = r['gen']
    zones = np_.array([[1, 1, 1, 0, 0], [0, 1, 0, 0, 1.0]])
    igr = np_.array([0, 1, 2, 4])
    for k in igr:
        gen[k, 7] = 0 if k == 2 else 1
    R, lo, hi, prc = np_.zeros(5), np_.zeros(5), np_.zeros(5), np_.zeros(5)
    ml, mu, mp = np_.zeros(5), np_.zeros(5), np_.zeros(5)
    for k in (0, 1, 4):
        R[k] = marked(env, env.var('R%d' % k, 0, 40), 1e-6) if part != 'mu' else 3.0 + k
        prc[k] = env.var('prc%d' % k, -10, 40) if part == 'r' else 5.0 + k
        if part != 'r':
            lo[k] = env.var('lo%d' % k, 0, 5) if part == 'lim' else 1.0
            hi[k] = env.var('hi%d' % k, 5, 60) if part == 'lim' else 60.0
            ml[k], mu[k], mp[k] = [marked(env, env.var('%s%d' % (n, k), 0, 5), 1e-6) if part == 'mu' and k < 4 else 0.0
                                   for n in ('ml', 'mu', 'mp')]
    rq = [env.var('zl%d' % i, 0, 50) if part == 'r' else 4.0 for i in (0, 1)]
    cost = env.var('cost', 0, 500) if part == 'r' else 7.0
    r['reserves'] = dict(zones=zones, req=np_.array([10.0, 20.0]), igr=igr, rgens=np_.array([1, 1, 1, 0, 1]), R=R, Rmin=lo, Rmax=hi, prc=prc,
                         mu=dict(l=ml, u=mu, Pmax=mp), totalcost=cost, cost=np_.ones(5))
    r['lin'] = dict(mu=dict(l=dict(Rreq=np_.array(rq))))
    keep = [x.copy() for x in (R, lo, hi, prc, ml, mu, mp)]
    out = bool(env.choice('out', [0, 1])) if part == 'r' else True
    head, sec = userpart(env, r, 'toggle_reserves', 'userfcn_reserves_printpf', options(env, OUT_ALL=-1 if out else 0))
    if not out:
        env.ok('nothing printed', sec == {})
        return
    env.ok('sections', sorted(sec) == ['Reserve Limits', 'Reserves'])
    if sorted(sec) != ['Reserve Limits', 'Reserves']:
        return
    R, lo, hi, prc, ml, mu, mp = keep
    rows = sec['Reserves'][1]
    zone = {0: '0', 1: '0,1', 2: '0', 4: '1'}
    env.ok('reserve rows', len(rows) == 4)
    for row, k in zip(rows, (0, 1, 2, 4)):
        t = row.replace(', ', ',').split()
        on = k != 2 and bool(R[k] > 1e-6)
        env.ok('zones of unit %d' % k, t[-1] == zone[k])
        shown(env, 'reserve of unit %d' % k, ' '.join(t[:-1]), [k, NUM[GB[k]], 0 if k == 2 else 1, R[k] if on else None, prc[k]], [0, 0, 0, 2, 2])
    total = R[0] + R[1] + R[4]
    t = [l for l in sec['Reserves'][2] if 'Total:' in l]
    env.ok('total line', len(t) == 1)
    m = re.match(r'\s*Total:\s*(\S+)\s+Total Cost: \$(\S+)', t[0]) if t else None
    env.ok('totals', m is not None)
    if m:
        env.shows('total reserve', m.group(1), total, 2)
        env.shows('total cost', m.group(2), cost, 2)
    zs = sec['Reserves'][3]
    env.ok('zone rows', len(zs) == 2)
    for i, row in enumerate(zs[:2]):
        shown(env, 'zone %d' % i, row, [i, total - R[4] if i == 0 else R[1] + R[4], rq[i] / 2.0], [0, 2, 2])
    rows = sec['Reserve Limits'][1]
    env.ok('limit rows', len(rows) == 4)
    for row, k in zip(rows, (0, 1, 2, 4)):
        def sh(x):
            return x if k != 2 and bool(x > 1e-6) else None
        shown(env, 'limits of unit %d' % k, row, [k, NUM[GB[k]], 0 if k == 2 else 1, sh(ml[k]), lo[k], sh(R[k]), hi[k], sh(mu[k]), sh(mp[k])],
              [0, 0, 0, 2, 2, 2, 2, 2, 2])
    t = [l for l in sec['Reserve Limits'][2] if 'Total:' in l]
    env.ok('limit total line', len(t) == 1)
    if t:
        env.shows('limit total', t[0].split()[1], total, 2)


def h_iflims(env, out):
    """interface section: flow, limits and prices of every limited interface"""
    np_ = env.np
    r = base(env, (), True)
    lims, P, ml, mu = np_.zeros((2, 3)), np_.zeros(2), np_.zeros(2), np_.zeros(2)
    for i in range(2):
        lims[i] = [(4, 2)[i], env.var('lo%d' % i, -60, 0), env.var('hi%d' % i, 1, 60)]
        P[i] = env.var('P%d' % i, -60, 60)
        ml[i], mu[i] = marked(env, env.var('ml%d' % i, 0, 9), 1e-6), marked(env, env.var('mu%d' % i, 0, 9), 1e-6)
    r['if'] = dict(map=np_.array([[4, 1], [2, -2], [4, 3]]), lims=lims, P=P, mu=dict(l=ml, u=mu))
    k0 = [x.copy() for x in (lims, P, ml, mu)]
    head, sec = userpart(env, r, 'toggle_iflims', 'userfcn_iflims_printpf', options(env, OUT_ALL=out))
    if out == 0:
        env.ok('nothing printed', sec == {})
        return
    lims, P, ml, mu = k0
    env.ok('section', 'Interface Flow Limits' in sec)
    rows = sec['Interface Flow Limits'][1] if 'Interface Flow Limits' in sec else []
    env.ok('rows', len(rows) == 2)
    for i, row in enumerate(rows[:2]):
        shown(env, 'interface %d' % i, row, [lims[i, 0], ml[i] if bool(ml[i] > 1e-6) else None, lims[i, 1], P[i], lims[i, 2],
                                             mu[i] if bool(mu[i] > 1e-6) else None], [0, 3, 2, 2, 2, 3])


def h_dcline(env, part, opf, lim=2, every=False):
    """DC line sections: terminal flows, losses and injections; limits and prices of optimal power flow answers"""
    np_ = env.np
    r = base(env, (), opf)
    ct = 0.01
    on = (1, 0, 1)
    dc = np_.zeros((3, 23 if opf else 17))
    for k in range(3):
        dc[k, 0:3] = [NUM[k], NUM[(k + 1) % 3], on[k]]
        if on[k]:
            for c in range(3, 7):
                dc[k, c] = env.var('d%d_%d' % (k, c), -60, 60) if part == 'flow' or c == 3 else 2.0 + c
        dc[k, 7:9] = 1.0
        dc[k, 9], dc[k, 10] = -70.0, 70.0
        if opf and part == 'lim':
            dc[k, 9] = env.var('lo%d' % k, -60, 0)
            dc[k, 10] = env.var('hi%d' % k, 1, 60)
            if k == 0:
                dc[k, 17], dc[k, 18] = mus(env, 'ml', 'mu')
            if on[k]:
                apart(env, dc[k, 3], dc[k, 10] - ct)
    r['dcline'] = dc
    d = dc.copy()
    if every:
        o = options(env, OUT_ALL=1)
    else:
        o = options(env, OUT_ALL_LIM=-1, OUT_V_LIM=0, OUT_LINE_LIM=lim, OUT_PG_LIM=0, OUT_QG_LIM=0, OUT_BRANCH=part == 'flow')
    head, sec = userpart(env, r, 'toggle_dcline', 'userfcn_dcline_printpf', o)
    data = every or part == 'flow'
    env.ok('data section', ('DC Line Data' in sec) == data)
    if data and 'DC Line Data' in sec:
        rows = sec['DC Line Data'][1]
        env.ok('data rows', len(rows) == 3)
        for k, row in enumerate(rows[:3]):
            v = [d[k, 3], d[k, 4], d[k, 3] - d[k, 4], d[k, 5], d[k, 6]] if on[k] else [None] * 5
            shown(env, 'line %d' % k, row, [k, d[k, 0], d[k, 1]] + v, [0, 0, 0, 2, 2, 2, 2, 2])
        t = sec['DC Line Data'][2]
        env.ok('loss line', len(t) == 1 and t[0].split()[0] == 'Total:')
        if t:
            env.shows('total loss', t[0].split()[1], d[0, 3] - d[0, 4] + d[2, 3] - d[2, 4], 2)
    lim = 2 if every else lim
    want, may = [], []
    for k in range(3):
        at = bool(d[k, 3] > d[k, 10] - ct)
        pr = opf and (bool(d[k, 17] > PTOL) or bool(d[k, 18] > PTOL))
        if opf and (lim == 2 or (lim == 1 and on[k] and (at or pr))):
            want.append(k)
    title = 'DC Line Constraints'
    if not want:
        env.ok('no limits', title not in sec)
        return
    env.ok('limits', title in sec)
    rows = sec[title][1] if title in sec else []
    # out-of-service lines carry no data: their rows, if any, hold dashes only
    live = [x for x in rows if x.split()[3:] != ['-'] * 5]
    env.ok('limit rows', len(live) == len([k for k in want if on[k]]))
    for row, k in zip(live, [k for k in want if on[k]]):
        shown(env, 'limits of line %d' % k, row, [k, d[k, 0], d[k, 1], d[k, 17] if bool(d[k, 17] > PTOL) else None, d[k, 9], d[k, 3], d[k, 10],
                                                  d[k, 18] if bool(d[k, 18] > PTOL) else None], [0, 0, 0, 3, 2, 2, 2, 3])


def harnesses(tier):
    out = [('bus_opf', h_bus, dict(opf=True, sym=('v', 'va', 'pg', 'qg', 'f')), {}),
           ('bus_opf_price', h_bus, dict(opf=True, sym=('lam',)), {}),
           ('bus_pf', h_bus, dict(opf=False, sym=('v', 'va', 'pg', 'qg', 'ld')), {}),
           ('bus_dc', h_bus, dict(opf=True, sym=('va', 'pg', 'ld'), dc=True), {}),
           ('bus_old', h_bus, dict(opf=True, sym=('v', 'va', 'pg', 'qg', 'f'), old=True), {}),
           ('gen_opf', h_gen, dict(opf=True, sym=('pg', 'qg', 'lam')), {}),
           ('gen_pf', h_gen, dict(opf=False, sym=('pg', 'qg')), {}),
           ('gen_dc', h_gen, dict(opf=True, sym=('pg', 'lam'), dc=True), {}),
           ('gen_noload', h_gen, dict(opf=True, sym=('pg', 'qg'), none=True), {}),
           ('branch_flow', h_branch, dict(opf=True, sym=('fl',)), {}),
           ('branch_loss', h_branch, dict(opf=False, sym=('v', 'z', 'base')), {}),
           ('branch_angle', h_branch, dict(opf=False, sym=('v', 'va', 'shift')), {}),
           ('branch_dc', h_branch, dict(opf=True, sym=('fl',), dc=True), {}),
           ('system_gen', h_system, dict(opf=False, sym=('pg', 'qg', 'cap', 'sh')), {}),
           ('system_load', h_system, dict(opf=True, sym=('pg', 'ldn', 'lam')), {}),
           ('system_zero', h_system, dict(opf=False, sym=('ld',)), {}),
           ('system_v', h_system, dict(opf=False, sym=('v', 'va'), dc=True), {}),
           ('system_loss', h_system, dict(opf=False, sym=('z1',)), dict(goal_ms=120000)),
           ('system_base', h_system, dict(opf=False, sym=('base',)), {}),
           ('system_dc', h_system, dict(opf=True, sym=('pg', 'qg', 'cap', 'sh', 'ldn'), dc=True), {}),
           ('system_tie', h_system, dict(opf=False, sym=('fl',)), {}),
           ('area', h_area, dict(areas=(1, 1, 2), sym=('pg', 'qg', 'cap', 'sh', 'ldn')), {}),
           ('area_zero', h_area, dict(areas=(2, 1, 2), sym=('ld',)), {}),
           ('area_flow', h_area, dict(areas=(3, 1, 2), sym=('fl', 'v', 'base')), {}),
           ('area_dc', h_area, dict(areas=(1, 2, 2), sym=('pg', 'qg', 'cap', 'sh', 'ldn', 'fl'), dc=True), {}),
           ('area_numbers', h_area_numbers, dict(n=3), {}),
           ('area_one', h_area_numbers, dict(n=1), {}),
           ('single_bus', h_single, {}, {})]
    for lim in (1, 2, 0):
        out.append(('vlim_%d' % lim, h_vlim, dict(lim=lim), {}))
        for ld in (0, 1):
            for re_ in (0, 1):
                out.append(('%slim_%s_%d' % ('load' if ld else 'gen', 'q' if re_ else 'p', lim), h_glim,
                            dict(lim=lim, loads=bool(ld), reactive=bool(re_), zero=lim == 2), {}))
        for kind in (0, 1, 2):
            out.append(('flow%d_%d' % (kind, lim), h_flim, dict(lim=lim, kind=kind), {}))
    out += [('vlim_dc', h_vlim, dict(lim=2, dc=True), {}), ('genlim_q_dc', h_glim, dict(lim=2, loads=False, reactive=True, dc=True), {}),
            ('genlim_p_dc', h_glim, dict(lim=1, loads=False, reactive=False, dc=True), {}),
            ('flow_dc', h_flim, dict(lim=1, kind=0, dc=True), {})]
    out += [('reserves_' + p, h_reserves, dict(part=p), {}) for p in ('r', 'lim', 'mu')]
    out += [('iflims_%d' % o, h_iflims, dict(out=o), {}) for o in (-1, 1, 0)]
    for opf in (False, True):
        out.append(('dcline_flow_%s' % ('opf' if opf else 'pf'), h_dcline, dict(part='flow', opf=opf, lim=0), {}))
        out.append(('dcline_all_%s' % ('opf' if opf else 'pf'), h_dcline, dict(part='lim' if opf else 'flow', opf=opf, every=True), {}))
    out += [('dcline_lim_%d' % l, h_dcline, dict(part='lim', opf=True, lim=l), {}) for l in (0, 1, 2)]
    for opf in (False, True):
        out.append(('switch_%s' % ('opf' if opf else 'pf'), h_switch, dict(opf=opf, limits=False), {}))
        out.append(('switchlim_%s' % ('opf' if opf else 'pf'), h_switch, dict(opf=opf, limits=True), {}))
    return out
