"""The units the library names, with the dimension and SI meaning each one has by definition.

SI value = (value + offset) * scale.  Source: the SI brochure / international yard-and-pound agreement,
not the library.
"""
import math
DIMS = {  # exponents: length mass time current temperature amount luminosity angle solid-angle
    "Dimensionless": (0, 0, 0, 0, 0, 0, 0, 0, 0),
    "Length": (1, 0, 0, 0, 0, 0, 0, 0, 0), "Mass": (0, 1, 0, 0, 0, 0, 0, 0, 0),
    "Time": (0, 0, 1, 0, 0, 0, 0, 0, 0), "Current": (0, 0, 0, 1, 0, 0, 0, 0, 0),
    "Temperature": (0, 0, 0, 0, 1, 0, 0, 0, 0), "AmountOfSubstance": (0, 0, 0, 0, 0, 1, 0, 0, 0),
    "LuminousIntensity": (0, 0, 0, 0, 0, 0, 1, 0, 0), "Angle": (0, 0, 0, 0, 0, 0, 0, 1, 0),
    "SolidAngle": (0, 0, 0, 0, 0, 0, 0, 0, 1), "Area": (2, 0, 0, 0, 0, 0, 0, 0, 0),
    "Volume": (3, 0, 0, 0, 0, 0, 0, 0, 0), "Velocity": (1, 0, -1, 0, 0, 0, 0, 0, 0),
    "Acceleration": (1, 0, -2, 0, 0, 0, 0, 0, 0), "ReciprocalLength": (-1, 0, 0, 0, 0, 0, 0, 0, 0),
    "Frequency": (0, 0, -1, 0, 0, 0, 0, 0, 0), "Force": (1, 1, -2, 0, 0, 0, 0, 0, 0),
    "Pressure": (-1, 1, -2, 0, 0, 0, 0, 0, 0), "Energy": (2, 1, -2, 0, 0, 0, 0, 0, 0),
    "Power": (2, 1, -3, 0, 0, 0, 0, 0, 0), "Charge": (0, 0, 1, 1, 0, 0, 0, 0, 0),
    "Voltage": (2, 1, -3, -1, 0, 0, 0, 0, 0), "Capacitance": (-2, -1, 4, 2, 0, 0, 0, 0, 0),
    "Resistance": (2, 1, -3, -2, 0, 0, 0, 0, 0), "LuminousFlux": (0, 0, 0, 0, 0, 0, 1, 0, 1),
    "Illuminance": (-2, 0, 0, 0, 0, 0, 1, 0, 1), "AngularVelocity": (0, 0, -1, 0, 0, 0, 0, 1, 0),
    "AngularAcceleration": (0, 0, -2, 0, 0, 0, 0, 1, 0), "Radiance": (0, 1, -3, 0, 0, 0, 0, 0, -1),
    "Irradiance": (0, 1, -3, 0, 0, 0, 0, 0, 0), "RadiantIntensity": (2, 1, -3, 0, 0, 0, 0, 0, -1),
    "Luminance": (-2, 0, 0, 0, 0, 0, 1, 0, 0),
}
pi = math.pi
UNITS = [
    ("Kilometer", "Length", 1e3), ("Meter", "Length", 1), ("Centimeter", "Length", .01),
    ("Millimeter", "Length", 1e-3), ("Micrometer", "Length", 1e-6), ("Nanometer", "Length", 1e-9),
    ("AstronomicalUnit", "Length", 149597870700), ("Foot", "Length", .3048), ("Yard", "Length", .9144),
    ("Mile", "Length", 1609.344),
    ("Kilogram", "Mass", 1), ("Gram", "Mass", 1e-3), ("Milligram", "Mass", 1e-6),
    ("SiderealDay", "Time", 86164.0905), ("Day", "Time", 86400), ("Hour", "Time", 3600), ("Minute", "Time", 60),
    ("Second", "Time", 1), ("Millisecond", "Time", 1e-3), ("Microsecond", "Time", 1e-6),
    ("Nanosecond", "Time", 1e-9), ("Femtosecond", "Time", 1e-15), ("Ampere", "Current", 1),
    ("Kelvin", "Temperature", 1), ("Celsius", "Temperature", 1, 273.15), ("Fahrenheit", "Temperature", 5 / 9., 459.67),
    ("Mole", "AmountOfSubstance", 1), ("Candela", "LuminousIntensity", 1), ("Radian", "Angle", 1),
    ("Degree", "Angle", pi / 180), ("Arcminute", "Angle", pi / 10800), ("Arcsecond", "Angle", pi / 648000),
    ("Steradian", "SolidAngle", 1), ("SquareDegree", "SolidAngle", (pi / 180) ** 2),
    ("Diopter", "ReciprocalLength", 1), ("Millidiopter", "ReciprocalLength", 1e-3),
    ("Microdiopter", "ReciprocalLength", 1e-6), ("MetersPerSecond", "Velocity", 1),
    ("KilometersPerSecond", "Velocity", 1e3), ("MilesPerHour", "Velocity", .44704),
    ("KilometersPerHour", "Velocity", 1 / 3.6), ("RadiansPerSecond", "AngularVelocity", 1),
    ("DegreesPerSecond", "AngularVelocity", pi / 180), ("Hertz", "Frequency", 1), ("Kilohertz", "Frequency", 1e3),
    ("Megahertz", "Frequency", 1e6), ("Gigahertz", "Frequency", 1e9), ("Terahertz", "Frequency", 1e12),
    ("Newton", "Force", 1), ("Kilonewton", "Force", 1e3), ("Pascal", "Pressure", 1), ("Kilopascal", "Pressure", 1e3),
    ("Joule", "Energy", 1), ("Kilojoule", "Energy", 1e3), ("Megajoule", "Energy", 1e6),
    ("ElectronVolt", "Energy", 1.602176634e-19), ("SquareMeter", "Area", 1), ("SquareCentimeter", "Area", 1e-4),
    ("SquareMillimeter", "Area", 1e-6), ("Milliwatt", "Power", 1e-3), ("Watt", "Power", 1), ("Kilowatt", "Power", 1e3),
    ("Megawatt", "Power", 1e6), ("Gigawatt", "Power", 1e9), ("Coulomb", "Charge", 1),
    ("WattsPerMeterSquaredSteradian", "Radiance", 1), ("WattsPerMeterSquared", "Irradiance", 1),
    ("WattsPerSteradian", "RadiantIntensity", 1), ("Lumen", "LuminousFlux", 1),
]
SPECTRAL = [("SpectralMilliwatts", "Power", 1e-3), ("SpectralWatts", "Power", 1), ("SpectralKilowatts", "Power", 1e3),
            ("SpectralMegawatts", "Power", 1e6), ("SpectralGigawatts", "Power", 1e9),
            ("SpectralWattsPerMeterSquared", "Irradiance", 1), ("SpectralWattsPerMeterSquaredSteradian", "Radiance", 1)]
LITERALS = {
    "_Km": "Kilometer", "_m": "Meter", "_cm": "Centimeter", "_mm": "Millimeter", "_um": "Micrometer", "_nm": "Nanometer",
    "_au": "AstronomicalUnit", "_ft": "Foot", "_yd": "Yard", "_mi": "Mile", "_Kg": "Kilogram", "_g": "Gram",
    "_mg": "Milligram", "_day": "Day", "_h": "Hour", "_min": "Minute", "_s": "Second", "_ms": "Millisecond",
    "_us": "Microsecond", "_ns": "Nanosecond", "_rad": "Radian", "_deg": "Degree", "_K": "Kelvin", "_C": "Celsius",
    "_F": "Fahrenheit", "_J": "Joule", "_KJ": "Kilojoule", "_eV": "ElectronVolt", "_m2": "SquareMeter",
    "_cm2": "SquareCentimeter", "_mm2": "SquareMillimeter", "_mW": "Milliwatt", "_W": "Watt", "_KW": "Kilowatt",
    "_MW": "Megawatt", "_dpt": "Diopter", "_mdpt": "Millidiopter", "_udpt": "Microdiopter", "_mps": "MetersPerSecond",
    "_Kmps": "KilometersPerSecond", "_Miph": "MilesPerHour", "_Kmph": "KilometersPerHour",
    "_radps": "RadiansPerSecond", "_degps": "DegreesPerSecond", "_Hz": "Hertz", "_KHz": "Kilohertz",
    "_MHz": "Megahertz", "_GHz": "Gigahertz",
}
SI_NAME = {"Frequency": "Hz", "Force": "N", "Pressure": "Pa", "Energy": "J", "Power": "W", "Charge": "C", "Voltage": "V",
           "Capacitance": "F", "Resistance": "Ohm", "LuminousFlux": "lm", "Length": "m", "Mass": "Kg", "Time": "s",
           "Current": "A", "Temperature": "K", "AmountOfSubstance": "mol", "LuminousIntensity": "cd", "Angle": "rad",
           "SolidAngle": "sr", "Dimensionless": "dimensionless"}


def scales(u):
    s = u[2]
    return s if isinstance(s, tuple) else (s,)


def off(u):
    return u[3] if len(u) > 3 else 0
