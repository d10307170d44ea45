"""C24: numbers as roman numerals, letters and words."""
from quickly import numbering
from vs.ctx import harness

ROMAN = 'IVXLCDM'
UNITS = ['', 'I', 'II', 'III', 'IV', 'V', 'VI', 'VII', 'VIII', 'IX']
SMALL = ['', 'One', 'Two', 'Three', 'Four', 'Five', 'Six', 'Seven', 'Eight', 'Nine', 'Ten', 'Eleven', 'Twelve', 'Thirteen', 'Fourteen',
         'Fifteen', 'Sixteen', 'Seventeen', 'Eighteen', 'Nineteen']
TENS = ['', '', 'Twenty', 'Thirty', 'Forty', 'Fifty', 'Sixty', 'Seventy', 'Eighty', 'Ninety']


def digit(d, place):
    """The roman numerals of a digit at its place."""
    i, v, x = (ROMAN + '  ')[2 * place:2 * place + 3]
    return UNITS[d].replace('X', 'z').replace('V', 'y').replace('I', i).replace('y', v).replace('z', x)


@harness('C24', cases=[dict(lo=lo, hi=lo + 999) for lo in (1, 1000, 3000, 12000)], thorough=[dict(lo=lo, hi=lo + 999) for lo in (1, *range(1000, 20000, 1000))],
         bounds='the numbers 1 to 2000, 3000 to 4000 and 12000 to 13000 (thorough: 1 to 20000)')
def roman(ctx):
    """The roman numeral of a number is the usual one, and reads back as that number, in either case."""
    n = ctx.int('n', ctx.params['lo'], ctx.params['hi'])
    s = numbering.int2roman(n)
    s = ctx.concrete(s)
    n = ctx.concrete(n)
    ctx.check(s == 'M' * (n // 1000) + digit(n // 100 % 10, 2) + digit(n // 10 % 10, 1) + digit(n % 10, 0), 'the numeral')
    ctx.check(numbering.roman2int(s) == n, 'it reads back')
    ctx.check(numbering.roman2int(s.lower()) == n, 'it reads back in lower case')


@harness('C24', cases=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (1, 2, 3, 4)],
         bounds='all texts of up to three (thorough: four) of the seven letters in any case, and one that is none')
def roman_value(ctx):
    """Letters count negative if a greater one follows, and other letters are an error; no number below one has a numeral."""
    n = ctx.params['n']
    s = ctx.text('s', ROMAN + 'iv', n) if not ctx.flag('wrong') else 'I' * (n - 1) + ctx.text('s', 'ABYabz1 ', 1)
    letters = [ctx.concrete(s[i]) for i in range(n)]
    try:
        got = numbering.roman2int(s)
    except KeyError:
        ctx.check(any(c.upper() not in ROMAN for c in letters), 'an error only for other letters')
    else:
        values = [{'I': 1, 'V': 5, 'X': 10, 'L': 50, 'C': 100, 'D': 500, 'M': 1000}.get(c.upper()) for c in letters]
        ctx.check(None not in values, 'other letters are an error')
        prev = want = 0
        for v in reversed(values):
            if v < prev:
                want -= v
            else:
                want += v
                prev = v
        ctx.check(got == want, 'the value')
    try:
        numbering.int2roman(ctx.int('low', -5, 0))
    except ValueError:
        pass
    else:
        ctx.check(False, 'numbers below one are an error')


@harness('C24', cases=[dict(chars=c) for c in ('ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'abc', 'xy', '01234567', 'z')], bounds='numbers of up to 20000 (with one letter: 6; two: 200), for five alphabets')
def letters(ctx):
    """A number in letters counts on as the columns of a sheet do, and reads back as that number."""
    chars = ctx.params['chars']
    size = len(chars)
    top = {1: 6, 2: 200}.get(size, ctx.params.get('top', 20000))
    n = ctx.int('n', 0, top)
    s = numbering.int2letter(n, chars) if size < 26 else numbering.int2letter(n)
    back = numbering.letter2int(s, chars) if size < 26 else numbering.letter2int(s)
    ctx.check(back == n, 'it reads back')
    # the texts of every length follow all shorter ones, in alphabetical order
    length = len(s)
    first = sum(size ** i for i in range(length))
    ctx.check(ctx.And(n >= first, n < first + size ** length), 'the length')
    value = 0
    for i in range(length):
        ctx.check(ctx.isin(s[i], chars), 'the letters')
        value = value * size + sum(ctx.ite(s[i] == c, j, 0) for j, c in enumerate(chars))
    ctx.check(value == n - first, 'the order')
    ctx.observe('s', s)


@harness('C24', cases=[dict(n=n) for n in (0, 1, 2, 3)], bounds='texts of up to three of six letters, of which four are in the alphabet')
def letter_value(ctx):
    """Letters that are not in the alphabet are an error, others count in its order."""
    n = ctx.params['n']
    chars = 'dcba'
    s = ctx.text('s', 'abcdef', n)
    good = ctx.And(*(ctx.isin(s[i], chars) for i in range(n)))
    try:
        got = numbering.letter2int(s, chars)
    except ValueError:
        ctx.check(ctx.Not(good), 'an error only for other letters')
    else:
        ctx.check(good, 'other letters are an error')
        want = 0
        for i in range(n):
            want = want * 4 + 1 + sum(ctx.ite(s[i] == c, j, 0) for j, c in enumerate(chars))
        ctx.check(got == want, 'the value')


def words(n):
    """The words of a number."""
    if n == 0:
        return 'Zero'
    r = ''
    for f, w in ((1000000, 'Million'), (1000, 'Thousand')):
        if n >= f:
            r += words(n // f) + w
            n %= f
    if n >= 100:
        r += SMALL[n // 100] + 'Hundred'
        n %= 100
    if n >= 20:
        r += TENS[n // 10]
        n %= 10
    return r + SMALL[n]


@harness('C24', cases=[dict(f=f, rest=r) for f, r in ((1, 0), (1000, 0), (1000, 7), (1000, 640), (1000000, 0), (1000000, 20013), (1000000, 100900), (1000000, 999999))],
         bounds='all numbers under 1000, and these times a thousand or a million plus one of seven rests')
def english(ctx):
    """The words of a number are the English ones, and read back as that number, also after other text."""
    n = ctx.int('n', 0, 999)
    n = n * ctx.params['f'] + ctx.params['rest']
    s = numbering.int2text(n)
    s = ctx.concrete(s)
    n = ctx.concrete(n)
    ctx.check(s == words(n), 'the words')
    ctx.check(numbering.text2int(s) == n, 'it reads back')
    ctx.check(numbering.text2int('violin' + s) == n, 'it reads back after other text')
    ctx.check(numbering.text2int(s.lower()) == n, 'it reads back in lower case')
