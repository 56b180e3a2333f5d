"""C05: entries of the raw data.  acorr and ccorr are analysed for every method, normalization family,
complexity, spacing and supplied squares; each returned entry is traced through the called functions and
kernels to the pair sum it is (camera, time stamps, delay orientation, weight, see C01/C02) and compared with
the entry it is documented to be; entries are present exactly when the normalization needs them."""
from . import rawdata

def run(ctx):
    for c in rawdata.matrix(ctx.tier == "thorough", aout=False): rawdata.decide(ctx, c, ("pairs", "term"), ("pairs", "term", "weight", "entry", "accumulate"))
