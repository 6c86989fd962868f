from timelib import *
TITLE = "GNSS week/time-of-week conversions to UTC are exact"
RULE = """fromGPS/fromGalileo/fromGlonass are reduced to value graphs over (week, tow_ms) and must satisfy in every
polyhedral case UTC_ns = 1e9*(604800*week + epoch) + 1e6*tow_ms with normalised nsec (epoch 315964818 s for GPS
and Galileo, -10800 s for GLONASS); GpsWeek/GpsTow must invert fromGPS; GlonassWeek/DayOfWeek must equal the floor
quotients of the GLONASS time scale; fromGlonassTimeOfDay must keep the requested GLONASS time of day and stay within 12 h of the reference."""
ASSUME = ("weeks small enough that 604800*week fits the integer types used", "times not before the GPS epoch")


def run(ctx):
    t = Time(ctx)
    w, tow = ivar("week"), ivar("tow_ms")

    def conv(name, epoch, F0):
        g, f = t.g(name)
        ctx.add("functions", f["dem"])
        D = Dom({vg.mk("arg", (1,), 32): w, vg.mk("arg", (2,), 32): tow})
        bad = badn = ""
        cs = cases(D, list(t.out(g)), F0)
        for F1, (ls, ln) in cs:
            d = ls * E9 + ln - (w * 604800 + epoch) * E9 - tow * 10**6
            if not F1.entails_eq(d):
                bad = "UTC - exact (ns) = %s" % d
            if not (F1.entails_ge(ln) and F1.entails_ge(E9 - 1 - ln)):
                badn = "nsec = %s" % ln
        wh = impl_where(g, "utctime.cxx")
        ctx.ob(name[3:] + "/value", not bad and bool(cs), wh, bad)
        ctx.ob(name[3:] + "/normalised", not badn and bool(cs), wh, badn)

    F = Facts().ge(w)
    conv("vh_gps", 315964818, F)
    conv("vh_gal", 315964818, F)
    conv("vh_glo", -10800, F)

    # inverse functions: for a UTC time after the epoch, week = floor((sec-epoch)/604800)
    for name, epoch, div, mod in (("vh_gpsweek", 315964818, 604800, None), ("vh_gloweek", -10800, 604800, None),
                                  ("vh_glodow", -10800, 86400, 604800)):
        g, f = t.g(name)
        ctx.add("functions", f["dem"])
        e, s, n = t.inputs(0, "a")
        D = Dom(e)
        F = t.norm(Facts(), n).ge(s - epoch)
        bad = ""
        rs = D.lin(g.ret, F)
        for F1, r in rs:
            x = s - epoch
            if mod:
                q = ivar("wk")
                F1 = F1.ge(x - q * mod).ge(mod - 1 - x + q * mod)
                x = x - q * mod
            if not (F1.entails_ge(x - r * div) and F1.entails_ge(r * div + div - 1 - x)):
                bad = "result %s is not the floor quotient" % r
        ctx.ob(name[3:], not bad and bool(rs), impl_where(g, "utctime.cxx"), bad)
    g, f = t.g("vh_gpstow")
    ctx.add("functions", f["dem"])
    e, s, n = t.inputs(0, "a")
    D = Dom(e)
    q = ivar("wk")
    F = t.norm(Facts(), n).ge(s - 315964818)
    F = F.ge(s - 315964818 - q * 604800).ge(604799 - (s - 315964818 - q * 604800))
    rs = D.lin(g.ret, F)
    bad = [r for F1, r in rs if not F1.entails_eq(r - (s - 315964818 - q * 604800) - n * Fraction(1, E9))]
    ctx.ob("gpstow", bool(rs) and not bad, impl_where(g, "utctime.cxx"), "GpsTow() = %s" % bad[:1])
    # time of day: result = UTC time whose GLONASS time of day is tod (mod 1 day)
    g, f = t.g("vh_glotod")
    ctx.add("functions", f["dem"])
    e, s, n = t.inputs(1, "r")
    tod = ivar("tod_ms")
    D = Dom({**e, vg.mk("arg", (2,), 32): tod})
    F = t.norm(Facts(), n).ge(s).ge(tod).ge(86400 * 1000 - 1 - tod)
    day = ivar("day")
    F = F.ge(s + 10800 - day * 86400).ge(86399 - (s + 10800 - day * 86400)).ge(day)
    bad = badn = badr = ""
    cs = cases(D, list(t.out(g)), F)
    for F1, (ls, ln) in cs:
        d = ls * E9 + ln - (day * 86400 - 10800) * E9 - tod * 10**6
        k = [j for j in (-1, 0, 1) if F1.entails_eq(d - j * 86400 * E9)]
        if not k:
            bad = "result - (GLONASS day start + tod) = %s ns" % d
        if not (F1.entails_ge(ln) and F1.entails_ge(E9 - 1 - ln)):
            badn = "nsec = %s" % ln
        far = ls * E9 + ln - s * E9 - n
        if not (F1.entails_ge(43200 * E9 - far) and F1.entails_ge(far + 43200 * E9)):
            badr = "result - reference = %s ns is not bounded by 12 h" % far
    wh = impl_where(g, "utctime.cxx")
    ctx.ob("glotod/value", bool(cs) and not bad, wh, bad)
    ctx.ob("glotod/closest", bool(cs) and not badr, wh, badr)
    ctx.ob("glotod/normalised", bool(cs) and not badn, wh, badn)
