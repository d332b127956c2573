"""Wall time of the quick tier, and planted bugs that are not caught."""
COST = {"C04": "42 s", "C10": "46 s", "C11": "29 s", "C13": "42 s", "C15": "57 s",
        "C21": "62 s", "C26": "39 s", "C27": "26 s"}
MISSED = {}
