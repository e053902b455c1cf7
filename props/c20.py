"""C20: indenting and outdenting"""
from sx.api import Scenario

ASSUMPTIONS = ['lines end in a newline character; a tab leads to the next multiple of eight columns']


def lead(ctx, line):
    """number of characters of leading whitespace"""
    n = 0
    while n < len(line) and ctx.decide(line[n].isspace()):
        n += 1
    return n


def width(ctx, line):
    """columns of leading whitespace"""
    w = 0
    for i in range(lead(ctx, line)):
        w = w // 8 * 8 + 8 if ctx.decide(line[i] == '\t') else w if ctx.decide(ctx.lor(line[i] == '\r', line[i] == '\n')) else w + 1
    return w


def block(ctx, quick, thorough, alphabet=' \t\nx'):
    return ctx.str('code', (0, quick if ctx.tier == 'quick' else thorough), alphabet=alphabet)


def split(ctx, code):
    """the lines of the text"""
    out, at = [], 0
    for i in range(len(code)):
        if ctx.decide(code[i] == '\n'):
            out.append(code[at:i])
            at = i + 1
    return out + [code[at:]]


def blank(ctx, line):
    return lead(ctx, line) == len(line)


def compare(ctx, out, want):
    got = split(ctx, out)
    ctx.check(len(got) == len(want), 'number of lines', detail='%d lines became %d' % (len(want), len(got)))
    for g, w in zip(got, want):
        ctx.check(g == w, 'line by line')


def indented(ctx, code, pad):
    lines = split(ctx, code)
    ref = width(ctx, lines[0])
    want = [pad + l if width(ctx, l) >= ref else l for l in lines]
    if blank(ctx, want[-1]):
        want[-1] = ''
    return want


def s_indent(ctx):
    """any text of at most 4 characters (thorough: 6) out of space, tab, newline and a letter, indented by 0, 1, 3 or 9 spaces, by
    default, or by a text ("-", a tab)"""
    code = block(ctx, 4, 6)
    how = ctx.choice('by', [0, 1, 3, 9, None, '-', '\t'])
    out = ctx.expect_ok('runs', ctx.dill.source.indent, code, *(() if how is None else (how,)))
    pad = how if isinstance(how, str) else ' ' * (4 if how is None else how)
    compare(ctx, out, indented(ctx, code, pad))


def s_outdent(ctx):
    """any text of at most 5 characters (thorough: 6) out of space, tab, newline and a letter, outdented completely or by any
    integer, all of it or only the first line"""
    code = block(ctx, 5, 6)
    n = ctx.int('by', -4, 20) if ctx.flag('given') else None
    all_ = ctx.flag('all')
    out = ctx.expect_ok('runs', ctx.dill.source.outdent, code, n, all_)
    lines = split(ctx, code)
    k = lead(ctx, lines[0])
    if n is not None and ctx.decide(ctx.land(n >= 0, n < k)):
        k = ctx.concrete(n)
    want = [l[min(k, lead(ctx, l)):] for l in (lines if all_ else lines[:1])] + ([] if all_ else lines[1:])
    compare(ctx, out, want)


def s_back(ctx):
    """any text of at most 4 characters (thorough: 6) out of space, tab, newline and a letter, whose lines are all indented at
    least as much as the first and whose last line is not just whitespace; indented and outdented by 0 to 9 spaces"""
    code = block(ctx, 4, 6)
    lines = split(ctx, code)
    ref = width(ctx, lines[0])
    for l in lines:
        if width(ctx, l) < ref:
            ctx.skip('less indented than the first')
    if lines[-1] and blank(ctx, lines[-1]):
        ctx.skip('trailing whitespace')
    if len(lines) > 1 and not lines[-1] and ref:
        ctx.skip('less indented than the first')
    n = ctx.choice('by', [0, 1, 4, 9])
    src = ctx.dill.source
    out = ctx.expect_ok('runs', lambda: src.outdent(src.indent(code, n), n))
    ctx.check(out == code, 'the block back')


def s_wide(ctx):
    """any line of at most 2 characters (thorough: 3) out of all of ASCII after a line of at most 2 of them"""
    a = ctx.str('a', (0, 2), lo=0, hi=127)
    b = ctx.str('b', (0, 2 if ctx.tier == 'quick' else 3), lo=0, hi=127)
    for s in (a, b):
        for c in s:
            ctx.assume(ctx.land(c != '\n', c != '\r'))
    code = a + '\n' + b
    src = ctx.dill.source
    compare(ctx, ctx.expect_ok('runs', src.indent, code, 2), indented(ctx, code, '  '))
    k = lead(ctx, a)
    compare(ctx, ctx.expect_ok('runs', src.outdent, code), [a[k:], b[min(k, lead(ctx, b)):]])


SCENARIOS = [
    Scenario('indent', s_indent, labels=('number of lines', 'line by line')),
    Scenario('outdent', s_outdent, labels=('number of lines', 'line by line')),
    Scenario('back', s_back, labels=('the block back',)),
    Scenario('wide', s_wide, labels=('number of lines', 'line by line')),
]
