"""English readings, written from the language rules and the conventions of the shipped examples (tn/english/test/data)."""
ONES = ["zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine"]
TEENS = ["ten", "eleven", "twelve", "thirteen", "fourteen", "fifteen", "sixteen", "seventeen", "eighteen", "nineteen"]
TENS = ["", "", "twenty", "thirty", "forty", "fifty", "sixty", "seventy", "eighty", "ninety"]
SCALES = ["", "thousand", "million", "billion", "trillion"]
MONTHS = ["january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"]
ORD = {"one": "first", "two": "second", "three": "third", "five": "fifth", "eight": "eighth", "nine": "ninth", "twelve": "twelfth"}


def below100(n):
    if n < 10:
        return ONES[n]
    if n < 20:
        return TEENS[n - 10]
    return TENS[n // 10] + (" " + ONES[n % 10] if n % 10 else "")


def group(n, conj=False):
    """0-999; with conj an "and" behind the hundreds."""
    if n < 100:
        return below100(n)
    rest = n % 100
    return ONES[n // 100] + " hundred" + ((" and " if conj else " ") + below100(rest) if rest else "")


def cardinal(n, conj=True):
    """The number in words, "and" only in front of its last two digits."""
    if n < 1000:
        return group(n, conj)
    parts = []
    k = 0
    rest = n
    while rest:
        g = rest % 1000
        if g:
            if k == 0:
                parts.append(("and " if conj and g < 100 and n // 1000 % 1000 else "") + group(g, conj))
            else:
                parts.append(group(g) + " " + SCALES[k])
        rest //= 1000
        k += 1
    return " ".join(reversed(parts))


def year(n):
    """1000-2999 as a year."""
    hi, lo = divmod(n, 100)
    if hi % 10 == 0 and lo < 10:
        return ONES[hi // 10] + " thousand" + (" " + ONES[lo] if lo else "")
    if lo == 0:
        return below100(hi) + " hundred"
    return below100(hi) + (" oh " + ONES[lo] if lo < 10 else " " + below100(lo))


def ordinal(n):
    words = cardinal(n, False).split(" ")
    last = words[-1]
    words[-1] = ORD.get(last) or (last[:-1] + "ieth" if last.endswith("y") else last + "th")
    return " ".join(words)


def suffix(n):
    return "th" if n % 100 in (11, 12, 13) else {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")


def digits(s, zero="oh"):
    return " ".join(zero if c == "0" else ONES[int(c)] for c in s)


def thousand(text):
    """A number said alone or as an amount drops the "one" of a leading "one thousand"."""
    return text[4:] if text.startswith("one thousand") else text


def plural(s):
    for one, many in (("foot", "feet"), ("inch", "inches"), ("real", "reals")):
        if s == one or s.endswith(" " + one):
            return s[:len(s) - len(one)] + many
    if s.endswith("y") and s[-2] not in "aeiou":
        return s[:-1] + "ies"
    if s.endswith(("s", "sh", "ch", "x", "z")):
        return s + "es"
    return s + "s"


UNITS = {  # unit: singular, plural
    "amu": ("atomic mass unit", "atomic mass units"),
    "bar": ("bar", "bars"),
    "°": ("degree", "degrees"),
    "º": ("degree", "degrees"),
    "°c": ("degree Celsius", "degrees Celsius"),
    "°C": ("degree Celsius", "degrees Celsius"),
    "ºc": ("degree Celsius", "degrees Celsius"),
    "ºC": ("degree Celsius", "degrees Celsius"),
    "℃": ("degree Celsius", "degrees Celsius"),
    "cm2": ("square centimeter", "square centimeters"),
    "cm²": ("square centimeter", "square centimeters"),
    "cm3": ("cubic centimeter", "cubic centimeters"),
    "cm³": ("cubic centimeter", "cubic centimeters"),
    "cm": ("centimeter", "centimeters"),
    "cwt": ("hundredweight", "hundredweight"),
    "db": ("decibel", "decibels"),
    "dm3": ("cubic decimeter", "cubic decimeters"),
    "dm³": ("cubic decimeter", "cubic decimeters"),
    "dm": ("decimeter", "decimeters"),
    "ds": ("decisecond", "deciseconds"),
    "°f": ("degree Fahrenheit", "degrees Fahrenheit"),
    "°F": ("degree Fahrenheit", "degrees Fahrenheit"),
    "℉": ("degree Fahrenheit", "degrees Fahrenheit"),
    "ft": ("foot", "feet"),
    "ghz": ("gigahertz", "gigahertz"),
    "gw": ("gigawatt", "gigawatts"),
    "gwh": ("gigawatt hour", "gigawatt hours"),
    "hz": ("hertz", "hertz"),
    "kbps": ("kilobit per second", "kilobits per second"),
    "kcal": ("kilo calory", "kilo calories"),
    "kgf": ("kilogram force", "kilograms force"),
    "kg": ("kilogram", "kilograms"),
    "khz": ("kilohertz", "kilohertz"),
    "km2": ("square kilometer", "square kilometers"),
    "km²": ("square kilometer", "square kilometers"),
    "km3": ("cubic kilometer", "cubic kilometers"),
    "km³": ("cubic kilometer", "cubic kilometers"),
    "km": ("kilometer", "kilometers"),
    "kpa": ("kilopascal", "kilopascals"),
    "kwh": ("kilowatt hour", "kilowatt hours"),
    "kw": ("kilowatt", "kilowatts"),
    "kW": ("kilowatt", "kilowatts"),
    "lb": ("pound", "pounds"),
    "lbs": ("pound", "pounds"),
    "m2": ("square meter", "square meters"),
    "m²": ("square meter", "square meters"),
    "m3": ("cubic meter", "cubic meters"),
    "m³": ("cubic meter", "cubic meters"),
    "mbps": ("megabit per second", "megabits per second"),
    "mg": ("milligram", "milligrams"),
    "mhz": ("megahertz", "megahertz"),
    "mi2": ("square mile", "square miles"),
    "mi²": ("square mile", "square miles"),
    "mi3": ("cubic mile", "cubic miles"),
    "mi³": ("cubic mile", "cubic miles"),
    "cu mi": ("cubic mile", "cubic miles"),
    "mi": ("mile", "miles"),
    "min": ("minute", "minutes"),
    "ml": ("milliliter", "milliliters"),
    "mm2": ("square millimeter", "square millimeters"),
    "mm²": ("square millimeter", "square millimeters"),
    "mol": ("mole", "moles"),
    "mpa": ("megapascal", "megapascals"),
    "mph": ("mile per hour", "miles per hour"),
    "ng": ("nanogram", "nanograms"),
    "nm": ("nanometer", "nanometers"),
    "ns": ("nanosecond", "nanoseconds"),
    "oz": ("ounce", "ounces"),
    "pa": ("pascal", "pascals"),
    "rad": ("radian", "radians"),
    "rpm": ("revolution per minute", "revolutions per minute"),
    "sq ft": ("square foot", "square feet"),
    "sq mi": ("square mile", "square miles"),
    "sv": ("sievert", "sieverts"),
    "tj": ("terajoule", "terajoules"),
    "tl": ("teraliter", "teraliters"),
    "v": ("volt", "volts"),
    "yd": ("yard", "yards"),
    "μg": ("microgram", "micrograms"),
    "μm": ("micrometer", "micrometers"),
    "μs": ("microsecond", "microseconds"),
    "ω": ("ohm", "ohms"),
    "au": ("AU", "AU"),
    "cc": ("CC", "CC"),
    "ev": ("EV", "EV"),
    "f": ("F", "F"),
    "gpa": ("GPA", "GPA"),
    "gy": ("GY", "GY"),
    "hs": ("HS", "HS"),
    "kl": ("KL", "KL"),
    "kn": ("KN", "KN"),
    "kt": ("KT", "KT"),
    "kv": ("KV", "KV"),
    "lm": ("LM", "LM"),
}
