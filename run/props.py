"""What is proved for each property: the obligations (jobs for the verifier),
which of them are the property itself, the bounded stand-ins for functions
that do not meet their contract, and the native campaign that confirms."""
from vlib import CONFIGS, SAFETY, FUNCTIONAL, lanes

ALLM = list(range(0, 185, 8))
FN = ["check_stream_kernel", "check_stream_init", "check_block_decrypt", "check_block_encrypt"]
CONTRACT_OF = {"check_stream_kernel": "dvbcsa_bs_stream_cipher_kernel", "check_stream_init": "dvbcsa_bs_stream_cipher_kernel_init",
               "check_block_decrypt": "dvbcsa_bs_block_decrypt_register", "check_block_encrypt": "dvbcsa_bs_block_encrypt_register",
               "check_cl_block_dec": "dvbcsa_block_decrypt", "check_cl_block_enc": "dvbcsa_block_encrypt", "check_cl_stream": "dvbcsa_stream_xor", "check_cl_stream_all": "dvbcsa_stream_xor"}
CLB = ["check_cl_block_dec", "check_cl_block_enc"]
ENDIAN = ["default", "uint64-ppc64be"]     # the classical code sees only the byte order of the build
SAMPLE = ["default", "uint32", "sse2"]
LIMIT = 200

def fn(cfgs=CONFIGS): return [(c, "bs_fn", f, (), LIMIT) for c in cfgs for f in FN]
def api(f, cfg, m, enc, **kw): return (cfg, "bs_api", f, (("maxlen", m), ("enc", enc)) + tuple(sorted(kw.items())), LIMIT)
def clfn(cfgs): return [(c, "classic", f, (), LIMIT) for c in cfgs for f in CLB] + [(c, "classic", "check_cl_stream", (("n", 256),), LIMIT) for c in cfgs] + [(c, "classic", "check_cl_stream_all", (), LIMIT) for c in cfgs]
def clall(cfgs, encs=(0, 1), f="check_cl_all"):
    """payloads of any length: loops cut with invariants"""
    return [(c, "classic", f, (("enc", e),), LIMIT) for c in cfgs for e in encs]
def cl(f, cfg, n, enc): return (cfg, "classic", f, (("n", n), ("enc", enc)), LIMIT)
def keys(f, cfgs): return [(c, "keys", f, (), LIMIT) for c in cfgs]
def is_contract(job): return job[2] in CONTRACT_OF

def jobs(pid, thorough):
    J = []
    if pid in ("C01", "C02"):
        e = int(pid == "C02")
        J += clfn(CONFIGS) + clall(CONFIGS, (e,))
        J += [cl("check_cl", c, 256 if thorough else 200, e) for c in (CONFIGS if thorough else ENDIAN)]
    elif pid == "C03":
        J += [("default", "classic", "check_inverse", (), LIMIT)] + fn() + clfn(ENDIAN)
        J += clall(CONFIGS if thorough else ENDIAN, f="check_cl_rt_all") + clall(CONFIGS if thorough else ENDIAN)
        J += [cl("check_cl_rt", c, 256 if thorough else 200, e) for c in ENDIAN for e in (0, 1)]
        J += [api("check_bs_rt", c, m, e) for c in CONFIGS for e in (0, 1) for m in (ALLM if thorough else [24])]
        if not thorough: J += [api("check_bs_rt", c, 184, e) for c in ("uint32", "default") for e in (0, 1)]
        # the two implementations meet the same specification
        J += [cl("check_cl", c, 184, e) for c in ENDIAN for e in (0, 1)]
        J += [api("check_bs", c, m, e) for c in CONFIGS for e in (0, 1) for m in ([24, 184] if thorough else [24])]
    elif pid == "C04":
        J += keys("check_key_set", CONFIGS)
        J += clfn(ENDIAN) + fn() + clall(ENDIAN) + [cl("check_cl", c, 24, e) for c in ENDIAN for e in (0, 1)]
        J += [api("check_bs", c, 24, e) for c in CONFIGS for e in (0, 1)]
    elif pid in ("C05", "C06"):
        e = int(pid == "C06")
        J += fn()
        for c in CONFIGS:
            ms = ALLM if thorough or c in ("uint32", "default") else [0, 24, 184]
            J += [api("check_bs", c, m, e) for m in ms]
    elif pid == "C07":
        J += fn()
        for c in CONFIGS:
            ms = ALLM if thorough else [8, 24, 184] if c in SAMPLE else [24]
            J += [api("check_bs", c, m, e) for m in ms for e in (0, 1)]
    elif pid == "C08":
        J += fn()
        for c in CONFIGS:
            ms = ALLM if thorough or c == "uint32" else [0, 8, 24, 96, 136, 176] if c == "default" else [0, 24]
            for e in (0, 1):
                for m in ms:
                    for m2 in sorted({min(m + 8, 184), 184} if c in SAMPLE else {min(m + 16, 184)}):
                        if m2 > m: J.append(api("check_bs_maxlen", c, m, e, maxlen2=m2))
        J += [api("check_bs", c, m, e) for c in CONFIGS for m in (24,) for e in (0, 1)] + [api("check_bs", "uint32", m, e) for m in (8, 96, 184) for e in (0, 1)]
    elif pid == "C09":
        J += fn() + clfn(ENDIAN) + clall(CONFIGS if thorough else ENDIAN)
        J += [cl("check_cl_tail", c, 256 if thorough else 200, e) for c in ENDIAN for e in (0, 1)]
        for c in CONFIGS:
            ms = ALLM if thorough else [8, 24, 104, 184] if c == "uint32" else [24, 96] if c == "default" else [24]
            J += [api("check_bs_tail", c, m, e) for m in ms for e in (0, 1)]
    elif pid == "C10":
        J += fn() + clfn(CONFIGS) + keys("check_key_set", CONFIGS) + keys("check_alloc", CONFIGS) + keys("check_batch_size", CONFIGS) + clall(CONFIGS)
        J += [cl("check_cl", c, 256, e) for c in ENDIAN for e in (0, 1)]
        for c in CONFIGS:
            ms = ALLM if thorough else [0, 8, 184]
            J += [api("check_bs", c, m, e) for m in ms for e in (0, 1)]
    elif pid == "C11":
        J += fn() + clfn(CONFIGS) + clall(CONFIGS) + keys("check_key_set", CONFIGS)
        J += [cl("check_cl", c, 200, e) for c in ENDIAN for e in (0, 1)]
        for c in CONFIGS:
            ms = ALLM if thorough else [8, 184] if c in SAMPLE else [24]
            J += [api("check_bs", c, m, e) for m in ms for e in (0, 1)]
    elif pid == "C12":
        J += fn() + clfn(CONFIGS) + clall(CONFIGS)
        J += [cl("check_cl", c, 200 if thorough else 64, e) for c in CONFIGS for e in (0, 1)]
        for c in CONFIGS:
            ms = ALLM if thorough else [24, 184] if c in SAMPLE else [24]
            J += [api("check_bs", c, m, e) for m in ms for e in (0, 1)]
    elif pid == "C13":
        J += fn() + keys("check_batch_size", CONFIGS)
        for c in CONFIGS:
            ms = [24, 96, 184] if thorough else [24, 184] if c in SAMPLE else [24]
            J += [api("check_bs", c, m, e) for m in ms for e in (0, 1)]
    elif pid == "C14":
        J += keys("check_alloc", CONFIGS)
    seen, out = set(), []
    for j in J:
        if j not in seen: seen.add(j); out.append(j)
    return out

def relevant(pid, job, f):
    """'primary': this obligation is (part of) the property; 'secondary': the
    proof of the property leans on it; None: another property's."""
    k, h = f["kind"], job[2]
    if k in ("reachable", "loop-invariant"): return "secondary"
    if pid == "C10": return "primary" if k in SAFETY or k == "allocation-argument" else None
    if pid == "C14": return "primary" if h == "check_alloc" and (k in FUNCTIONAL or k in SAFETY) else None
    if pid == "C11":
        if k == "frame": return "primary"
        if k == "noninterference": return "primary"
        return "secondary" if k == "contract" else None
    if k not in FUNCTIONAL: return None
    if is_contract(job): return "secondary" if pid in ("C03", "C04", "C07", "C08", "C09", "C12", "C13") else "primary"
    if pid in ("C01", "C02", "C05", "C06"): return "primary"
    if pid == "C03": return "primary" if h in ("check_bs_rt", "check_cl_rt", "check_inverse") else "secondary"
    if pid == "C04": return "primary" if h == "check_key_set" else "secondary"
    if pid == "C07": return "primary" if k in ("noninterference", "symmetry") else "secondary"
    if pid == "C08": return "primary" if h == "check_bs_maxlen" else "secondary"
    if pid == "C09": return "primary" if h in ("check_bs_tail", "check_cl_tail") else "secondary"
    if pid == "C12": return "secondary"
    if pid == "C13": return "primary" if h == "check_batch_size" else "secondary"
    return "secondary"

# obligations counted for a property
def counted(pid):
    if pid == "C10": return SAFETY | {"loop-invariant"}
    if pid == "C11": return {"frame", "noninterference", "contract", "loop-invariant"}
    if pid == "C14": return FUNCTIONAL | SAFETY
    return FUNCTIONAL | {"loop-invariant"}

def fallback(pid, cfg, inline, keyonly=False):
    """bounded stand-ins when functions do not meet their contracts: the
    functions of `inline` are executed instead"""
    if keyonly:      # what the key object holds is the library's own affair: what a key set twice does, by every contract
        return [api("check_bs", cfg, 24, e, dirty=1) for e in (0, 1)] + [(cfg, "classic", "check_cl_all", (("enc", e), ("dirty", 1)), LIMIT) for e in (0, 1)]
    p = tuple(("inline_" + x, 1) for x in sorted(inline)) if inline else (("nocontracts", 1),)
    def a(f, m, e, **kw):
        j = api(f, cfg, m, e, **kw)
        return j[:3] + (j[3] + p, 200)
    def c(f, n, e):
        j = cl(f, cfg, n, e)
        return j[:3] + (j[3] + p, 200)
    bs = [8, 24] if lanes(cfg) <= 64 else [8, 16]
    incl = not inline or any(not x.startswith("dvbcsa_bs") for x in inline)
    inbs = not inline or any(x.startswith("dvbcsa_bs") for x in inline)
    J = []
    if pid in ("C01", "C02"): J = [c("check_cl", 24, int(pid == "C02"))]
    elif pid in ("C05", "C06"): J = [a("check_bs", m, int(pid == "C06")) for m in bs]
    elif pid == "C03": J = ([c("check_cl_rt", 24, e) for e in (0, 1)] if incl else []) + ([a("check_bs_rt", bs[1], e) for e in (0, 1)] if inbs else [])
    elif pid == "C04": J = ([c("check_cl", 24, e) for e in (0, 1)] if incl else []) + ([a("check_bs", m, e) for m in bs for e in (0, 1)] if inbs else [])
    elif pid in ("C07", "C13", "C11", "C10", "C12"):
        J = [a("check_bs", m, e) for m in bs for e in (0, 1)] if inbs else []
        if incl and pid in ("C10", "C11", "C12"): J += [c("check_cl", 24, e) for e in (0, 1)]
    elif pid == "C08": J = [a("check_bs_maxlen", 8, e, maxlen2=16) for e in (0, 1)] if inbs else []
    elif pid == "C09": J = ([a("check_bs_tail", bs[1], e) for e in (0, 1)] if inbs else []) + ([c("check_cl_tail", 24, e) for e in (0, 1)] if incl else [])
    return J

TITLE = {}

ASSUMPTIONS = {
    "all": ["the code is the LLVM IR clang -O0 makes of /repo/src for each configuration; the compilers that build the library are trusted to agree with it",
            "buffers passed to one call do not overlap each other, the key object or the batch array",
            "pointer arithmetic is checked when memory is accessed, not when the pointer is formed",
            "AltiVec builds are not covered (dvbcsa_bs_altivec.h does not compile with the gcc 13 or clang 18 installed here)"],
}
