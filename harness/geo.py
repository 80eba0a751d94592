"""Distances computed independently of the code under test."""
import math

R = 6371.227


def _xyz(lon, lat):
    a, b = math.radians(lon), math.radians(lat)
    return (math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b))


def metres(p, q):
    a, b = _xyz(*p), _xyz(*q)
    cx = a[1] * b[2] - a[2] * b[1]
    cy = a[2] * b[0] - a[0] * b[2]
    cz = a[0] * b[1] - a[1] * b[0]
    dot = sum(x * y for x, y in zip(a, b))
    return 1000.0 * R * math.atan2(math.sqrt(cx * cx + cy * cy + cz * cz), dot)


MONTH = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def day_number(y, m, d):
    """Days in years of 365 days (29 February counts as 1 March)."""
    return y * 365 + MONTH[m - 1] + d - 1


def space_km(opt, m):
    if opt == "GardnerKnopoff":
        return 10 ** (0.1238 * m + 0.983)
    if opt == "Gruenthal":
        return math.exp(1.77 + math.sqrt(0.037 + 1.02 * m))
    return math.exp(-1.024 + 0.804 * m)


def time_days(opt, m):
    if opt == "GardnerKnopoff":
        return 10 ** (0.032 * m + 2.7389) if m >= 6.5 \
            else 10 ** (0.5409 * m - 0.547)
    if opt == "Gruenthal":
        return 10 ** (2.8 + 0.024 * m) if m >= 6.5 \
            else math.exp(-3.95 + math.sqrt(0.62 + 17.32 * m))
    return 365 * math.exp(-2.87 + 1.235 * m / 365)
