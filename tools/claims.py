T = "TLA+ specification checked with TLC; every transition and simulated behaviour replayed into the real code; recorded traces validated by TLC"
N = ("Exhaustive within the small constants of the configuration on the specification; the code is bound to it on every transition "
     "of that state graph, on long simulated behaviours and on randomly driven recorded traces. Trusts TLC, g++ with ASan/UBSan and the driver.")
CLAIMS = {
    "C01": (T, N),
    "C02": (T, N),
    "C03": (T, N),
    "C04": (T, N),
    "C08": (T, N),
    "C09": (T, N),
    "C18": (T, N),
    "C25": (T, N),
    "C19": (T, N),
    "C23": (T, N),
    "C24": (T, N),
    "C17": (T, N),
    "C11": (T, N),
    "C14": (T, N),
    "C13": (T, N),
    "C12": (T, N),
    "C22": (T, N),
    "C15": (T, N),
    "C16": (T, N),
    "C10": (T, N),
    "C20": (T, N),
    "C07": (T, N),
    "C05": (T, N),
    "C06": (T, N),
    "C21": (T, N),
    "C26": (T, N),
    "C27": (T, N),
    "C28": (T, N),
    "C29": (T, N),
    "C30": (T, N),
    "C31": (T, N),
}
NA = {}
