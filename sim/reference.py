"""Independent model of what units mean (SI factors), for C06 and C09."""

FACTOR = {
    "Pressure": {"Pa": 1.0, "uPa": 1e-6, "mPa": 1e-3, "dPa": 0.1, "kPa": 1e3, "MPa": 1e6, "bar": 1e5, "atm": 101325.0,
                 "mmHg": 133.322, "psi": 6894.76},
    "Length": {"m": 1.0, "in": 0.0254, "ft": 0.3048, "yd": 0.9144, "mile": 1609.34, "um": 1e-6, "mm": 1e-3, "cm": 0.01,
               "dm": 0.1, "km": 1e3},
    "Time": {"s": 1.0, "min": 60.0, "hr": 3600.0, "day": 86400.0},
    "Energy": {"J": 1.0, "uJ": 1e-6, "mJ": 1e-3, "cJ": 0.01, "dJ": 0.1, "kJ": 1e3, "MJ": 1e6, "BTU": 1055.056},
    "Mass": {"kg": 1.0, "ug": 1e-9, "mg": 1e-6, "dg": 1e-4, "g": 1e-3, "Mg": 1e3, "lb": 0.453592},
    "Force": {"N": 1.0, "uN": 1e-6, "mN": 1e-3, "dN": 0.1, "kN": 1e3, "MN": 1e6, "lbf": 4.44822},
}
TEMPERATURE = {"K": (1.0, 0.0), "C": (1.0, 273.15), "F": (5 / 9, 459.67 * 5 / 9), "R": (5 / 9, 0.0)}

COMPOUND = {"m": 1, "cm": 0.01, "mm": 1e-3, "km": 1e3, "ft": 0.3048, "in": 0.0254, "yd": 0.9144, "mile": 1609.34, "kg": 1, "g": 1e-3, "mg": 1e-6, "lb": 0.453592,
            "s": 1, "min": 60, "hr": 3600, "day": 86400, "K": 1, "C": 1, "F": 5 / 9, "R": 5 / 9, "J": 1, "mJ": 1e-3, "kJ": 1e3, "MJ": 1e6, "BTU": 1055.056,
            "W": 1, "mW": 1e-3, "kW": 1e3, "MW": 1e6, "mol": 1, "kmol": 1e3, "L": 1e-3, "Pa": 1, "mPa": 1e-3, "kPa": 1e3, "MPa": 1e6, "bar": 1e5, "atm": 101325, "mmHg": 133.322, "cP": 1e-3,
            "acre": 4046.873, "A": 1}


def si_unit(cls, value, unit):
    """Amount of an exponent-1 quantity in the standard unit, or None if unknown."""
    if cls == "Temperature":
        ab = TEMPERATURE.get(unit)
        return None if ab is None else value * ab[0] + ab[1]
    f = FACTOR.get(cls, {}).get(unit)
    return None if f is None else value * f


def compound_factor(top, bottom):
    """SI factor of unit lists [(unit, exponent)]."""
    f = 1.0
    for sign, part in ((1, top), (-1, bottom)):
        for unit, e in part:
            if unit not in COMPOUND:
                return None
            f *= COMPOUND[unit] ** (sign * e)
    return f


def parse(unit):
    top, _, bottom = unit.partition("/")

    def half(s):
        out = []
        for x in s.split("*"):
            if x:
                u, _, e = x.partition("^")
                out.append((u, float(e) if e else 1.0))
        return out
    return half(top), half(bottom)
