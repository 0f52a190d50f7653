import datetime

from pyvc.driver import unit

W = "prosimos.weekday_helper:"


@unit("P13.future_weekday", W + "get_nearest_abs_day")
def future(c):
    wd, bp = c.mod("weekday_helper"), None
    now = c.dt("now")
    names = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]
    i = c.choice("weekday", list(range(7)))
    r = c.call(wd.get_nearest_abs_day, names[i], now)
    c.check("lands on the weekday", c.eq(r.weekday(), i))
    d = c.instant(r) - c.instant(now)
    c.check("same time of day", c.eq(r.time(), now.time()))
    c.check("at least one and at most seven days ahead", c.and_(d >= 86400, d <= 7 * 86400))


@unit("P13.past_weekday", W + "get_nearest_past_day")
def past(c):
    wd = c.mod("weekday_helper")
    now = c.dt("now")
    names = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]
    i = c.choice("weekday", list(range(7)))
    r = c.call(wd.get_nearest_past_day, names[i], now)
    c.check("lands on the weekday", c.eq(r.weekday(), i))
    d = c.instant(now) - c.instant(r)
    c.check("same time of day", c.eq(r.time(), now.time()))
    c.check("at most six days back", c.and_(d >= 0, d <= 6 * 86400))


B = "prosimos.batch_processing:FiringSubRule."


@unit("P13.batch_weekday", [B + "_get_min_enabled_time_week_day", B + "_is_current_date_enabled"])
def batch_weekday(c):
    """the earliest start of a weekday batch: midnight of today, or of the next occurrence"""
    bp, wd = c.mod("batch_processing"), c.mod("weekday_helper")
    now = c.dt("now")
    names = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]
    i = c.choice("weekday", list(range(7)))
    name = c.choice("case", [names[i], names[i].title()])
    rule = c.call(bp.FiringSubRule, "week_day", "=", name)
    r = c.call(rule._get_min_enabled_time_week_day, wd.CustomDatetimeAndSeconds(0, now))
    c.check("midnight", c.eq(r.time(), datetime.time(0)))
    c.check("on the weekday", c.eq(r.weekday(), i))
    d = c.instant(r) - c.instant(now)
    c.check("today or the next occurrence", c.ite(c.eq(now.weekday(), i), c.and_(d <= 0, d > -86400), c.and_(d > 0, d <= 6 * 86400)))
    c.check("same time zone", r.tzinfo is now.tzinfo if not c.symbolic else c.not_(r.tzinfo is None))
