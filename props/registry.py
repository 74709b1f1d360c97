"""Which function decides which property."""
import os
CHECKS = {
    "C01": ("p_config", "c01"), "C02": ("p_config", "c02"), "C03": ("p_config", "c03"),
    "C04": ("p_config", "c04"), "C05": ("p_config", "c05"),
    "C21": ("p_logger", "c21"), "C22": ("p_logger", "c22"),
    "C06": ("p_parse", "c06"), "C07": ("p_parse", "c07"), "C08": ("p_parse", "c08"),
    "C09": ("p_parse", "c09"), "C10": ("p_parse", "c10"), "C37": ("p_parse", "c37"),
    "C11": ("p_track", "c11"), "C12": ("p_track", "c12"),
    "C13": ("p_data", "c13"), "C14": ("p_data", "c14"),
    "C15": ("p_image", "c15"), "C16": ("p_image", "c16"), "C17": ("p_time", "c17"),
    "C26": ("p_math", "c26"), "C27": ("p_math", "c27"), "C36": ("p_math", "c36"), "C38": ("p_math", "c38"),
    "C42": ("p_text", "c42"), "C41": ("p_kw", "c41"), "C33": ("p_cmd", "c33"), "C35": ("p_fs", "c35"), "C32": ("p_kw", "c32"),
    "C34": ("p_hash", "c34"),
    "C31": ("p_proc", "c31"), "C30": ("p_front", "c30"),
    "C28": ("p_small", "c28"), "C29": ("p_small", "c29"), "C40": ("p_small", "c40"), "C39": ("p_geom", "c39"),
    "C20": ("p_plugin", "c20"), "C23": ("p_capi", "c23"), "C24": ("p_capi", "c24"), "C25": ("p_capi", "c25"), "C18": ("p_algo", "c18"), "C19": ("p_algo", "c19"),
}

T = "TLA+ specification checked with TLC; TLC-generated and random histories executed on the real code, recorded traces validated by TLC"
NOTES = {
    "C01": (T, "bounded exhaustive model; sampled histories on the code"),
    "C02": (T, "bounded exhaustive model; sampled histories on the code"),
    "C03": (T, "bounded exhaustive model; sampled histories on the code"),
    "C04": (T, "bounded exhaustive model; sampled histories on the code"),
    "C05": (T, "conversion rules specified in TLA+; sampled texts incl. all type limits"),
    "C06": (T, "bounded exhaustive model of file shapes; sampled file trees on the code"),
    "C07": (T, "bounded exhaustive model; sampled reference texts and definitions"),
    "C08": (T, "bounded exhaustive model of broken files; every file shape up to a bound and random ones on the code"),
    "C09": (T, "bounded exhaustive model; sampled blocks on the code"),
    "C10": (T, "bounded exhaustive model of present files; sampled trees on the code"),
    "C37": (T + "; concurrent calls under ThreadSanitizer", "schedules are sampled; the model is exhaustive"),
    "C21": (T + "; concurrent requests under ThreadSanitizer", "schedules are sampled; the model is exhaustive"),
    "C22": (T + "; concurrent writers under ThreadSanitizer", "schedules are sampled; the model is exhaustive"),
    "C11": (T, "bounded exhaustive model; sampled histories on the code"),
    "C12": (T, "bounded exhaustive model; sampled sets of up to 8 tracks on the code"),
    "C13": (T, "laws of the format checked on a bounded model; sampled sets and texts on the code"),
    "C14": (T, "all small PLY files and sampled ones; camera numbers compared to four decimals"),
    "C15": (T, "bounded exhaustive model of sharing; sampled histories on the code under AddressSanitizer"),
    "C16": (T, "every geometry up to 2x2x2 with gaps and signs; larger ones sampled"),
    "C17": (T, "every pair of small timestamps and all short histories; sampled 64-bit values"),
    "C18": (T, "bounded exhaustive model; sampled histories on the code, one process each"),
    "C19": (T, "every small nested configuration on the model; sampled ones up to depth 4 on the code"),
    "C23": (T, "sampled histories on the code under AddressSanitizer, which also shows what has been freed"),
    "C24": (T, "every entry point with an error handle, each with its kinds of failure; sampled histories"),
    "C25": (T, "sampled histories on the code"),
    "C26": (T, "exact over dyadic matrices with power-of-two determinants; sampled histories on the code"),
    "C27": (T, "every sparsity pattern of small matrices; larger ones sampled"),
    "C36": (T, "bounded exhaustive model; sampled histories for sizes 1 to 6"),
    "C38": (T, "bounded exhaustive model; sampled histories on the code"),
    "C28": (T, "every text up to 5 characters over three kinds; longer ones sampled"),
    "C30": (T, "every small pair of maps and set of tracks on the model and the code; larger ones sampled"),
    "C31": (T, "every plan of settings, execution and interaction up to a bound"),
    "C29": (T, "every history up to a bound; times compared with a tolerance"),
    "C33": (T, "every line up to 4 arguments for four sets of options whose names are prefixes of each other; longer lines and arbitrary sets sampled"),
    "C32": (T, "every text up to 7 characters over separators, dots and a name; longer ones sampled"),
    "C35": (T, "every history of two helper calls on a small tree with links; longer ones sampled, as an unprivileged user"),
    "C34": (T, "bounded exhaustive model of the table; sampled histories with failing copies on the code under AddressSanitizer"),
    "C39": (T, "bounded exhaustive model of compositions over exact fractions; the code's numbers compared with them up to a tolerance"),
    "C42": (T, "every short command line, stream, replacement and cut on the model and the code; the other helpers on sampled texts"),
    "C41": (T, "every pattern up to 5 characters on the model; longer ones sampled"),
    "C40": (T, "every short text; longer ones sampled"),
    "C20": (T + "; concurrent first use under ThreadSanitizer", "every small plugin tree on the model; sampled ones on the code; schedules are sampled"),
}
NOT_APPLICABLE = {
}


def known_findings(prop):
    """Lines 'finding: property=<id> <key> | <text>' of known_findings.txt that apply to prop."""
    out = []
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line.split(" ", 2)[2])
    return out
