"""What each check runs: worker variants, time budgets, and which report classes decide the property."""
MACHINERY = {"HARNESS", "LIMIT"}
# A run that ends like this cannot have satisfied any of the properties.
ALWAYS = {"CRASH", "HANG", "DEADLOCK", "LIVELOCK", "LOCKING", "MEMORY", "READFAIL", "APIFAIL"}
T = {"quick": 45, "thorough": 780}
TC = {"quick": 75, "thorough": 780}
PLAN = {
    "C01": {"workers": {"plain": 8}, "time": T, "classes": ["LOST", "LOSTPRE", "DUP", "ORDER", "VALUE", "VLSD", "STRUCT"]},
    "C02": {"workers": {"plain": 3, "tsan": 5}, "time": TC, "classes": ["LOST", "DUP", "ORDER", "VALUE", "VLSD", "RACE", "TIME"]},
    "C03": {"workers": {"plain": 8}, "time": T, "classes": ["VLSD", "LOST", "VALUE", "STRUCT", "DUP", "ORDER"]},
    "C04": {"workers": {"plain": 8}, "time": T, "classes": ["LOST", "DUP", "ORDER", "VALUE", "TIME", "META", "STRUCT", "HISTORY"]},
    "C05": {"workers": {"plain": 8}, "time": T, "classes": ["TIME", "HDRTIME", "LOSTPRE"]},
    "C06": {"workers": {"plain": 8}, "time": T, "classes": ["LOST", "LOSTPRE", "WINDOW", "BOUND"]},
    "C07": {"workers": {"plain": 8}, "time": T, "classes": ["LOST", "LOSTPRE", "DUP", "ORDER", "VALUE", "VLSD", "TIME", "META", "STRUCT", "HISTORY", "LEAK"]},
    "C08": {"workers": {"plain": 8}, "time": T, "classes": ["LOST", "LOSTPRE", "DUP", "ORDER", "VALUE", "VLSD", "TIME", "HDRTIME", "META", "STRUCT", "ATTACH", "HISTORY"]},
    "C09": {"workers": {"plain": 8}, "time": T, "classes": ["CRASHLOSS", "VALUE", "VLSD", "ORDER", "DUP", "TIME", "LOST", "META"]},
    "C10": {"workers": {"plain": 8}, "time": T, "classes": ["LOST", "LOSTPRE", "DUP", "ORDER", "VALUE", "VLSD", "TIME", "HDRTIME", "META", "STRUCT", "SILENT", "LEAK"]},
    "C11": {"workers": {"plain": 8}, "time": T, "classes": ["SILENT", "VALUE", "VLSD", "DUP", "ORDER", "TIME", "LEAK"]},
    "C12": {"workers": {"plain": 8}, "time": T, "classes": ["HISTORY", "LEAK", "VALUE", "VLSD", "LOST", "ORDER", "DUP"]},
    "C13": {"workers": {"plain": 8}, "time": T, "classes": ["TIMEOUT", "LOST", "LEAK"]},
    "C14": {"workers": {"plain": 8}, "time": T, "classes": ["LOST", "LOSTPRE", "DUP", "ORDER", "VALUE", "VLSD", "TIME", "HDRTIME", "META", "STRUCT", "SILENT", "ATTACH", "LEAK"]},
    "C18": {"workers": {"plain": 8}, "time": T, "classes": ["LOST", "LOSTPRE", "DUP", "ORDER", "VALUE", "VLSD", "TIME", "HDRTIME", "META", "STRUCT", "SILENT", "HISTORY", "LEAK"]},
    "C20": {"workers": {"plain": 8}, "time": T, "classes": ["LOST", "VALUE", "SILENT", "LEAK"]},
    "C17": {"workers": {"plain": 8}, "time": T, "classes": ["LOST", "LOSTPRE", "DUP", "ORDER", "VALUE", "VLSD", "TIME", "HDRTIME", "META", "STRUCT", "HISTORY"]},
    "C15": {"workers": {"plain": 8}, "time": T, "classes": ["ATTACH", "LEAK", "LOST", "VALUE", "STRUCT", "META"]},
    "C16": {"workers": {"plain": 8}, "time": T, "classes": ["META", "STRUCT", "HDRTIME"]},
}

_B = "Seeded search, no proof: holds on every simulated run of the budget. Trusts the simulator's model of threads (interleaving at lock, atomic, file, clock"
_E = "), the reference model in harness/ and the host's C++ library and zlib. "
NOTES = {k: _B + (" and every memory access" if "tsan" in v["workers"] else "") + _E + v.get("note", "") for k, v in PLAN.items()}
NA = {
    "C19": "A pure function of its arguments: no thread, time, I/O, crash point or history for a simulator to control, so deterministic simulation cannot add to an ordinary test.",
}
