"""Normalization codes: names are alternatives for bits 1 (standard), 2 (structured), 3 (weighted),
4 (subtracted), 8 (compensated); a code without any of the two lower bits gets the standard bit."""
from cddm.norm import normalize
from cddm.core import acorr, ccorr, iccorr, iacorr
import cddm.norm

def named(code):
    return code

def flags(structured, subtracted, weighted, compensated):
    code = 0
    if weighted: code = code | 3
    elif structured: code = code | 2
    else: code = code | 1
    if subtracted: code = code | 4
    if compensated: code = code | 8
    return code

def lhs_flags(structured, subtracted, weighted, compensated):
    return cddm.norm.norm_flags(structured = structured, subtracted = subtracted, weighted = weighted, compensated = compensated)

def accept(ok):
    if not ok: raise ValueError("not supported")

def lhs_normalize(data, background, variance, norm):
    normalize(data, background, variance, norm = norm)

def lhs_acorr(f, n, norm, method): acorr(f, n = n, norm = norm, method = method)
def lhs_ccorr(f1, f2, n, norm, method): ccorr(f1, f2, n = n, norm = norm, method = method)
def lhs_iccorr(data, n, norm, method): iccorr(data, n = n, norm = norm, method = method)
def lhs_iacorr(data, n, norm, method): iacorr(data, n = n, norm = norm, method = method)
