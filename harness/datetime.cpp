// C24: dates and times of day, and the number of microseconds since 1970.
#include <ply-runtime/Base.h>
#include <ply-runtime/time/DateTime.h>
#include "sx.h"
using namespace ply;

static const s64 usPerDay = 86400000000ll;

static bool leap(int y) {
    return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
}
static u32 daysIn(int y, u32 m) {
    return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
}
static DateTime date(int y, u32 m, u32 d) {
    DateTime dt;
    dt.year = y;
    dt.month = (u8) m;
    dt.day = (u8) d;
    return dt;
}

// The calendar: each day is one after the one before it, the first of January 1970 is day 0, a Thursday.
ENTRY h_date_next() {
    int bits = (int) sx_param("YEARBITS", 12);
    int y = (int) sx_var(bits, "year") - (1 << (bits - 1)) + (int) sx_param("MID", 1970);
    u32 m = (u32) sx_pick(1, 12, "month");
    u32 n = daysIn(y, m);
    u32 d = (u32) sx_var(5, "day");
    ASSUME(d >= 1 && d <= n);
    s64 t = date(y, m, d).toEpochMicroseconds();
    bool last = d == n;
    DateTime next = last ? (m == 12 ? date(y + 1, 1, 1) : date(y, m + 1, 1)) : date(y, m, d + 1);
    CHECK(next.toEpochMicroseconds() == t + usPerDay);
    CHECK(date(1970, 1, 1).toEpochMicroseconds() == 0);
    sx_reach("end");
}

// The time within the day counts from midnight.
ENTRY h_time_of_day() {
    DateTime dt = date(1970 + (int) sx_var(7, "year"), (u32) sx_pick(1, 12, "month"), 1 + (u32) sx_var(4, "day"));
    s64 t = dt.toEpochMicroseconds();
    u32 h = (u32) sx_var(5, "hour"), mi = (u32) sx_var(6, "minute"), s = (u32) sx_var(6, "second"), us = (u32) sx_var(20, "us");
    ASSUME(h < 24 && mi < 60 && s < 60 && us < 1000000);
    dt.hour = (u8) h;
    dt.minute = (u8) mi;
    dt.second = (u8) s;
    dt.microseconds = us;
    CHECK(dt.toEpochMicroseconds() == t + (s64) us + (s64) 1000000 * (s64) s + (s64) 60000000 * (s64) mi + (s64) 3600000000ll * (s64) h);
    sx_reach("end");
}

// A date survives the trip to microseconds and back.
ENTRY h_date_round() {
    static const int years[] = {1970, 1969, 1900, 2000, 2024, 0, -1, -400, 290000, -290000, 1600, 2100};
    int y = years[sx_pick(0, (int) sx_param("YEARS", 6) - 1, "year")];
    u32 m = (u32) sx_pick(1, 12, "month");
    u32 d = (u32) sx_var(5, "day");
    ASSUME(d >= 1 && d <= daysIn(y, m));
    DateTime dt = date(y, m, d);
    static const s64 times[] = {0, 45296789012ll, usPerDay - 1};
    s64 t = times[sx_pick(0, 2, "time")];
    dt.microseconds = (u32) (t % 1000000);
    dt.second = (u8) (t / 1000000 % 60);
    dt.minute = (u8) (t / 60000000 % 60);
    dt.hour = (u8) (t / 3600000000ll);
    DateTime b = DateTime::fromEpochMicroseconds(dt.toEpochMicroseconds());
    CHECK(b.year == y && b.month == m && b.day == d);
    CHECK(b.hour == dt.hour && b.minute == dt.minute && b.second == dt.second && b.microseconds == dt.microseconds);
    CHECK(b.timeZoneHour == 0 && b.timeZoneMinute == 0);
    sx_reach("end");
}

// Any number of microseconds is a valid date and time, with the right day of the week.
ENTRY h_date_from() {
    int bits = (int) sx_param("DAYBITS", 6);
    // around 1970, 2000-03-01, 2001, 1900-03-01, 1972-03-01, 1600-03-01, year 0, before it, far away
    static const s64 mids[] = {0, 11017, 11323, -25508, 790, -135080, -719468, -719468 - 146097, 100000000, -100000000};
    s64 day = (s64) sx_var(bits, "day") - ((s64) 1 << (bits - 1)) + mids[sx_pick(0, 9, "window")];
    static const s64 times[] = {0, 43200000001ll, usPerDay - 1};
    s64 t = times[sx_pick(0, 2, "time")];
    s64 us = day * usPerDay + t;
    DateTime b = DateTime::fromEpochMicroseconds(us);
    CHECK(b.month >= 1 && b.month <= 12 && b.day >= 1 && b.day <= daysIn(b.year, b.month));
    CHECK(b.hour == t / 3600000000ll && b.minute == t / 60000000 % 60 && b.second == t / 1000000 % 60 &&
          b.microseconds == t % 1000000);
    CHECK(b.toEpochMicroseconds() == us);
    CHECK(b.weekday == (u32) ((day + 4 + 7 * (s64) 100000000) % 7));
    sx_reach("end");
}

// Within a day around 1970, any microsecond.
ENTRY h_time_from() {
    s64 t = (s64) sx_var(37, "t");
    ASSUME(t < usPerDay);
    static const s64 days[] = {0, -1, 1, 20000, -719528, 11016};
    s64 day = days[sx_pick(0, 5, "d")];
    DateTime b = DateTime::fromEpochMicroseconds(day * usPerDay + t);
    DateTime z = DateTime::fromEpochMicroseconds(day * usPerDay);
    CHECK(b.year == z.year && b.month == z.month && b.day == z.day && b.weekday == z.weekday);
    CHECK(b.hour < 24 && b.minute < 60 && b.second < 60 && b.microseconds < 1000000);
    CHECK((s64) b.microseconds + (s64) 1000000 * (s64) b.second + (s64) 60000000 * (s64) b.minute + (s64) 3600000000ll * (s64) b.hour == t);
    sx_reach("end");
}
