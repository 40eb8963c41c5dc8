"reference semantics of topic names and filters (MQTT 4.7, 4.8.2), as formulas over symbolic characters"
from sx.vals import land, lor, lnot, eq, ite

SL, PL, HA, DO = ord("/"), ord("+"), ord("#"), ord("$")


def chars(s):
    return [ord(c) for c in s] if isinstance(s, str) else list(s) if not hasattr(s, "e") else list(s.e)


def valid_filter(f):
    "wildcards stand alone in a level, # only in the last one"
    f = chars(f)
    n = len(f)
    if n == 0:
        return False
    cs = []
    for i, c in enumerate(f):
        alone = land(True if i == 0 else eq(f[i - 1], SL), True if i == n - 1 else eq(f[i + 1], SL))
        cs.append(lor(lnot(eq(c, PL)), alone))
        cs.append(lor(lnot(eq(c, HA)), land(alone, i == n - 1)))
    return land(*cs)


def valid_name(t):
    t = chars(t)
    return len(t) > 0 and land(*[land(lnot(eq(c, PL)), lnot(eq(c, HA))) for c in t])


def matches(f, t):
    "does the valid filter f (not a shared one) match the valid name t"
    f, t = chars(f), chars(t)
    n, m = len(f), len(t)
    memo = {}

    def M(i, j):
        if (i, j) in memo:
            return memo[i, j]
        if i == n:
            r = j == m
        else:
            c = f[i]
            alts = [eq(c, HA)]                                   # the rest, whatever it is
            for k in range(j, m + 1):                            # one level
                if k < m and k > j:
                    pass
                end = True if k == m else eq(t[k], SL)
                alts.append(land(eq(c, PL), *([lnot(eq(x, SL)) for x in t[j:k]] + [end, M(i + 1, k)])))
            if j < m:
                alts.append(land(lnot(eq(c, HA)), lnot(eq(c, PL)), eq(c, t[j]), M(i + 1, j + 1)))
            elif i == n - 2:                                     # "x/#" also matches "x"
                alts.append(land(eq(c, SL), eq(f[i + 1], HA)))
            r = lor(*alts)
        memo[i, j] = r
        return r
    if n == 0 or m == 0:
        return False
    return land(M(0, 0), lnot(land(eq(t[0], DO), lor(eq(f[0], PL), eq(f[0], HA)))))
